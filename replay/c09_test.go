//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

// C09: the G1 gadgets against gnark-crypto's group arithmetic.
func TestVerifC09(t *testing.T) {
	defer vDone(t)
	type V = frontend.Variable
	pr := func(p bn254.G1Affine) [2]V {
		x, y := vXY(p)
		return [2]V{x, y}
	}
	inf := bn254.G1Affine{}
	wrongs := func(want bn254.G1Affine, others ...bn254.G1Affine) [][2]*big.Int {
		x, y := vXY(want)
		var r [][2]*big.Int
		one := vI(1)
		r = append(r, [2]*big.Int{new(big.Int).Add(x, one), y}, [2]*big.Int{x, new(big.Int).Add(y, one)},
			[2]*big.Int{x, new(big.Int).Mod(new(big.Int).Neg(y), vP)}, [2]*big.Int{y, x}, [2]*big.Int{vI(0), vI(0)}, [2]*big.Int{vI(1), vI(2)})
		for _, o := range others {
			ox, oy := vXY(o)
			r = append(r, [2]*big.Int{ox, oy}, [2]*big.Int{x, oy}, [2]*big.Int{ox, y})
		}
		return r
	}
	var jobs []func()
	// native checks
	for i := 0; i < 24; i++ {
		p, q, k := vRandPt(), vRandPt(), vRandR()
		switch i {
		case 0:
			k = vI(0)
		case 1:
			k = vI(1)
		case 2:
			k = new(big.Int).Sub(vR, vI(1))
		case 3:
			q = vNeg(p)
		case 4:
			q = p
		case 5:
			q = inf
		case 6:
			p = inf
		}
		jobs = append(jobs, func() {
			m, s := vSmul(k, p), vAdd(p, q)
			natMul := func(res bn254.G1Affine) error {
				return vSafe(func() error { return VerifyBN256Msm(nil, &p, new(big.Int).Set(k), &res) })
			}
			natAdd := func(res bn254.G1Affine) error {
				return vSafe(func() error { return VerifyBN256Add(nil, &p, &q, &res) })
			}
			vCase()
			if err := natMul(m); err != nil {
				vFail("VerifyBN256Msm(%v, %v, %v): %v", p, k, m, err)
			}
			if err := natAdd(s); err != nil {
				vFail("VerifyBN256Add(%v, %v, %v): %v", p, q, s, err)
			}
			for _, w := range wrongs(m, p, s) {
				if wp := vPt(w[0], w[1]); !wp.Equal(&m) && natMul(wp) == nil {
					vFail("VerifyBN256Msm accepts %v as %v times %v", wp, k, p)
				}
			}
			for _, w := range wrongs(s, p, q, m) {
				if wp := vPt(w[0], w[1]); !wp.Equal(&s) && natAdd(wp) == nil {
					vFail("VerifyBN256Add accepts %v as %v plus %v", wp, p, q)
				}
			}
			mc := BN256MsmCircuit{G1Point: &p, Scalar: k, Res: &s}
			if !s.Equal(&m) && vSafe(func() error { return mc.Define(nil) }) == nil {
				vFail("BN256MsmCircuit accepts %v as %v times %v", s, k, p)
			}
			ac := BN256AddCircuit{G10Point: &p, G11Point: &q, Res: &m}
			if !s.Equal(&m) && vSafe(func() error { return ac.Define(nil) }) == nil {
				vFail("BN256AddCircuit accepts %v as %v plus %v", m, p, q)
			}
		})
	}
	// several uses in one circuit: none depends on what came before
	for i := 0; i < 3; i++ {
		p, q, k := vRandPt(), vRandPt(), vRandR()
		jobs = append(jobs, func() {
			vCase()
			err := vRun(func(api frontend.API) error {
				for _, u := range [][2]bn254.G1Affine{{p, q}, {p, vNeg(q)}, {vNeg(p), q}, {q, p}, {p, p}, {p, q}, {p, vNeg(p)}, {vNeg(p), vNeg(q)}, {q, inf}} {
					x1, y1 := vXY(u[0])
					x2, y2 := vXY(u[1])
					r, err := CalcVerifyBN256Add(api, x1, y1, x2, y2)
					if err != nil {
						return err
					}
					if !vIs(vBig(r[0]), vBig(r[1]), vAdd(u[0], u[1])) {
						vFail("CalcVerifyBN256Add(%v, %v) after other additions gives (%v, %v)", u[0], u[1], vBig(r[0]), vBig(r[1]))
					}
				}
				for _, u := range []struct {
					p bn254.G1Affine
					k *big.Int
				}{{p, k}, {vNeg(p), k}, {p, vSubR(vI(0), k)}, {p, vAddR(k, vI(1))}, {q, k}, {p, k}, {vNeg(p), k}} {
					x, y := vXY(u.p)
					r, err := CalcVerifyBN256Msm(api, x, y, new(big.Int).Set(u.k))
					if err != nil {
						return err
					}
					if !vIs(vBig(r[0]), vBig(r[1]), vSmul(u.k, u.p)) {
						vFail("CalcVerifyBN256Msm(%v, %v) after other multiplications gives (%v, %v)", u.p, u.k, vBig(r[0]), vBig(r[1]))
					}
				}
				return nil
			})
			if err != nil {
				vFail("a sequence of additions and multiplications is rejected: %v", err)
			}
		})
	}
	// addition gadget
	for i := 0; i < 12; i++ {
		p, q := vRandPt(), vRandPt()
		switch i {
		case 0:
			q = p
		case 1:
			q = vNeg(p)
		case 2:
			q = inf
		case 3:
			p = inf
		case 4:
			p, q = inf, inf
		}
		want := vAdd(p, q)
		jobs = append(jobs, func() {
			vCase()
			if err := vRun(func(api frontend.API) error { return VerifyBN254Add(api, pr(p), pr(q), pr(want)) }); err != nil {
				vFail("VerifyBN254Add(%v, %v) rejects the sum: %v", p, q, err)
			}
			c := &BN254Add{pr(p), pr(q), pr(want)}
			if err := vRun(func(api frontend.API) error { return c.Define(api) }); err != nil {
				vFail("BN254Add(%v, %v) rejects the sum: %v", p, q, err)
			}
		})
		for j, w := range wrongs(want, p, q, vRandPt()) {
			if vEqP(w[0], vX(want)) && vEqP(w[1], vY(want)) {
				continue
			}
			if i > 5 && j%3 != i%3 {
				continue
			}
			jobs = append(jobs, func() {
				vCase()
				if vRun(func(api frontend.API) error { return VerifyBN254Add(api, pr(p), pr(q), [2]V{w[0], w[1]}) }) == nil {
					vFail("VerifyBN254Add accepts (%v, %v) as %v plus %v", w[0], w[1], p, q)
				}
				c := &BN254Add{pr(p), pr(q), [2]V{w[0], w[1]}}
				if vRun(func(api frontend.API) error { return c.Define(api) }) == nil {
					vFail("BN254Add accepts (%v, %v) as %v plus %v", w[0], w[1], p, q)
				}
			})
		}
		jobs = append(jobs, func() {
			vAttack(fmt.Sprintf("CalcVerifyBN256Add(%v, %v)", p, q), func(api frontend.API) (func() string, error) {
				res, err := CalcVerifyBN256Add(api, pr(p)[0], pr(p)[1], pr(q)[0], pr(q)[1])
				return func() string {
					if !vIs(vBig(res[0]), vBig(res[1]), want) {
						return fmt.Sprintf("the accepted result is (%v, %v)", vBig(res[0]), vBig(res[1]))
					}
					return ""
				}, err
			})
			vAttack(fmt.Sprintf("CalcVerifyBN256Add1(%v, %v)", p, q), func(api frontend.API) (func() string, error) {
				res, err := CalcVerifyBN256Add1(api, pr(p)[0], pr(p)[1], pr(q)[0], pr(q)[1])
				return func() string {
					if !vIs(vBig(res[0]), vBig(res[1]), want) {
						return fmt.Sprintf("the accepted result is (%v, %v)", vBig(res[0]), vBig(res[1]))
					}
					return ""
				}, err
			})
		})
	}
	// scalar multiplication gadget
	for i := 0; i < 7; i++ {
		p, k := vRandPt(), vRandR()
		switch i {
		case 0:
			k = vI(1)
		case 1:
			k = vI(2)
		case 2:
			k = new(big.Int).Sub(vR, vI(1000))
		case 3:
			k = new(big.Int).Lsh(vI(1), 200)
		}
		want := vSmul(k, p)
		jobs = append(jobs, func() {
			vCase()
			if err := vRun(func(api frontend.API) error { return VerifyBN254ScalarMul(api, pr(p), new(big.Int).Set(k), pr(want)) }); err != nil {
				vFail("VerifyBN254ScalarMul(%v, %v) rejects the product: %v", p, k, err)
			}
		})
		for j, w := range wrongs(want, p, vAdd(want, p)) {
			if i > 1 && j%6 != i%6 {
				continue
			}
			if vEqP(w[0], vX(want)) && vEqP(w[1], vY(want)) {
				continue
			}
			jobs = append(jobs, func() {
				vCase()
				c := &BN254ScalarMul{pr(p), new(big.Int).Set(k), [2]V{w[0], w[1]}}
				if vRun(func(api frontend.API) error {
					return errors.Join(c.Define(api))
				}) == nil {
					vFail("BN254ScalarMul accepts (%v, %v) as %v times %v", w[0], w[1], k, p)
				}
			})
		}
		jobs = append(jobs, func() {
			f := func(which int) func(api frontend.API) (func() string, error) {
				return func(api frontend.API) (func() string, error) {
					var res [2]V
					var err error
					if which == 0 {
						res, err = CalcVerifyBN256Msm(api, pr(p)[0], pr(p)[1], new(big.Int).Set(k))
					} else {
						res, err = CalcVerifyBN256Msm1(api, pr(p)[0], pr(p)[1], new(big.Int).Set(k))
					}
					return func() string {
						if !vIs(vBig(res[0]), vBig(res[1]), want) {
							return fmt.Sprintf("the accepted result is (%v, %v)", vBig(res[0]), vBig(res[1]))
						}
						return ""
					}, err
				}
			}
			vAttack(fmt.Sprintf("CalcVerifyBN256Msm1(%v, %v)", p, k), f(1))
			if i < 3 {
				vAttack(fmt.Sprintf("CalcVerifyBN256Msm(%v, %v)", p, k), f(0))
			}
		})
	}
	// buffers: the right slots are read and written, at every offset
	for off := 0; off < 6; off++ {
		for _, add := range []bool{false, true} {
			acc, p, k := vRandPt(), vRandPt(), vRandR()
			jobs = append(jobs, func() {
				vCase()
				n := 12
				buf := make([]V, n)
				old := make([]*big.Int, n)
				for i := range buf {
					old[i] = vI(int64(1000 + i))
				}
				o := off
				if add {
					old[o], old[o+1] = vXY(acc)
					o += 2
				}
				old[o], old[o+1] = vXY(p)
				old[o+2] = k
				for i := range buf {
					buf[i] = new(big.Int).Set(old[i])
				}
				name := "ecc_mul"
				if add {
					name = "ecc_mul_add"
				}
				err := vRun(func(api frontend.API) error {
					if add {
						return ecc_mul_add(api, buf, off)
					}
					return ecc_mul(api, buf, off)
				})
				if err != nil {
					vFail("%s at offset %d rejects point %v, scalar %v: %v", name, off, p, k, err)
					return
				}
				want := vSmul(k, p)
				last := off + 2
				if add {
					want = vAdd(acc, want)
					last = off + 4
				}
				if !vIs(vBig(buf[off]), vBig(buf[off+1]), want) {
					vFail("%s at offset %d: result (%v, %v), want %v (point %v, scalar %v)", name, off, buf[off], buf[off+1], want, p, k)
				}
				for i := range buf {
					if (i < off || i >= last) && vBig(buf[i]).Cmp(old[i]) != 0 {
						vFail("%s at offset %d changes buf[%d] from %v to %v", name, off, i, old[i], buf[i])
					}
				}
			})
		}
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
}

func vX(p bn254.G1Affine) *big.Int { x, _ := vXY(p); return x }
func vY(p bn254.G1Affine) *big.Int { _, y := vXY(p); return y }
