//go:build go1.22

//uses: kyc

package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/consensys/gnark/std/signature/ecdsa"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/ethereum/go-ethereum/crypto"
)

type vFnC struct {
	ID int64
	V  []frontend.Variable
}

func (c *vFnC) Define(api frontend.API) error {
	f, _ := vFns.Load(c.ID)
	return f.(func(api frontend.API, v []frontend.Variable) error)(api, c.V)
}

// C20: gadgets and circuits compiled to constraints; the constraints are then
// solved for values that do and values that do not satisfy the gadget.
func TestVerifC20(t *testing.T) {
	defer vDone(t)
	vCase()
	agg, target, rest := vAggMarked()
	if all, _, err := vInputs(agg); err == nil {
		for _, x := range append(target, rest...) {
			if !all[x] {
				vFail("an input of AggregatorCircuit (word %s of 1001...) is not part of its witness: its value is compiled in as a constant", x)
			}
		}
	}
	var jobs []func()
	builders := map[string]frontend.NewBuilder{"plonk": scs.NewBuilder, "r1cs": r1cs.NewBuilder}
	type inst struct {
		v  []*big.Int
		ok bool
	}
	circ := func(what string, shape func() frontend.Circuit, wit map[string]func() (frontend.Circuit, bool)) {
		for bn, nb := range builders {
			jobs = append(jobs, func() {
				vCase()
				var bad error
				e := vSafe(func() error {
					ccs, err := frontend.Compile(vR, nb, shape())
					if err != nil {
						bad = err
						return nil
					}
					for wn, w := range wit {
						a, ok := w()
						wit, err := frontend.NewWitness(a, vR)
						if err != nil {
							return nil // not a witness
						}
						if err := ccs.IsSolved(wit); (err == nil) != ok {
							vFail("the constraints (%s) of %s on %s: %v", bn, what, wn, err)
						}
					}
					return nil
				})
				if bad == nil && e != nil {
					bad = e
				}
				if bad != nil {
					vFail("%s cannot be compiled (%s): %v", what, bn, bad)
				}
			})
		}
	}
	fn := func(what string, n int, f func(api frontend.API, v []frontend.Variable) error, ins ...inst) {
		id := vFnID.Add(1)
		vFns.Store(id, f)
		w := map[string]func() (frontend.Circuit, bool){}
		for _, in := range ins {
			w[fmt.Sprint(in.v)] = func() (frontend.Circuit, bool) { return &vFnC{ID: id, V: vVars(in.v...)}, in.ok }
		}
		circ(what, func() frontend.Circuit { return &vFnC{ID: id, V: make([]frontend.Variable, n)} }, w)
	}
	B := func(x ...int64) (r []*big.Int) {
		for _, y := range x {
			r = append(r, vI(y))
		}
		return
	}
	m1 := new(big.Int).Sub(vR, vI(1))
	a, b := vRandR(), vRandR()
	two := func(what string, f func(api frontend.API, x, y frontend.Variable) frontend.Variable, ref func(x, y *big.Int) *big.Int) {
		var ins []inst
		for _, o := range [][2]*big.Int{{a, b}, {m1, m1}, {vI(0), b}, {m1, vI(1)}, {vI(5), vI(7)}} {
			r := ref(o[0], o[1])
			ins = append(ins, inst{[]*big.Int{o[0], o[1], r}, true}, inst{[]*big.Int{o[0], o[1], vAddR(r, vI(1))}, false})
		}
		fn(what, 3, func(api frontend.API, v []frontend.Variable) error {
			api.AssertIsEqual(f(api, v[0], v[1]), v[2])
			return nil
		}, ins...)
	}
	two("fr_add", fr_add, vAddR)
	two("fr_sub", fr_sub, vSubR)
	two("fr_mul", fr_mul, vMulR)
	two("fr_neg", func(api frontend.API, x, y frontend.Variable) frontend.Variable { return fr_neg(api, x) }, func(x, y *big.Int) *big.Int { return vSubR(vI(0), x) })
	two("mod", func(api frontend.API, x, y frontend.Variable) frontend.Variable { return mod(api, x) }, func(x, y *big.Int) *big.Int { return vModR(x) })
	for _, e := range []int64{0, 1, 6} {
		two(fmt.Sprintf("fr_pow to the %d", e), func(api frontend.API, x, y frontend.Variable) frontend.Variable { return fr_pow(api, x, vI(e)) },
			func(x, y *big.Int) *big.Int { return new(big.Int).Exp(x, vI(e), vR) })
	}
	fn("fr_div", 3, func(api frontend.API, v []frontend.Variable) error { fr_div(api, v[0], v[1], v[2]); return nil },
		inst{B(6, 3, 2), true}, inst{B(6, 3, 3), false}, inst{[]*big.Int{vMulR(a, b), a, b}, true}, inst{[]*big.Int{a, a, b}, false})
	fn("VerifyNotZero", 1, func(api frontend.API, v []frontend.Variable) error { return VerifyNotZero(api, v[0]) },
		inst{B(0), false}, inst{B(1), true}, inst{[]*big.Int{m1}, true}, inst{[]*big.Int{a}, true})
	fn("VerifyRangeCheck", 3, func(api frontend.API, v []frontend.Variable) error { return VerifyRangeCheck(api, v[0], v[1], v[2]) },
		inst{B(5, 3, 9), true}, inst{B(2, 3, 9), false}, inst{B(10, 3, 9), false}, inst{B(3, 3, 9), true}, inst{B(9, 3, 9), true})
	fn("PackUInt8Variables", 4, func(api frontend.API, v []frontend.Variable) error {
		api.AssertIsEqual(PackUInt8Variables(api, v[0], v[1], v[2]), v[3])
		return nil
	}, inst{B(1, 2, 3, 66051), true}, inst{B(1, 2, 3, 197121), false}, inst{B(0, 255, 1, 65281), true})
	hashIn := []*big.Int{a, b, vI(0), vI(77), m1}
	var hb []byte
	for _, x := range hashIn {
		hb = append(hb, x.FillBytes(make([]byte, 32))...)
	}
	kh := vModR(new(big.Int).SetBytes(crypto.Keccak256(hb)))
	fn("VerifyInstanceHash", 6, func(api frontend.API, v []frontend.Variable) error {
		h, err := VerifyInstanceHash(api, v[:5])
		if err == nil {
			api.AssertIsEqual(h, v[5])
		}
		return err
	}, inst{append(append([]*big.Int{}, hashIn...), kh), true}, inst{append(append([]*big.Int{}, hashIn...), vAddR(kh, vI(1))), false})
	// hashes
	msg := []byte("abc")
	kd := crypto.Keccak256(msg)
	sh := vSha(msg)
	mkH := func(m, d []byte) ([]uints.U8, []uints.U8) { return uints.NewU8Array(m), uints.NewU8Array(d) }
	flip := func(d []byte) []byte { e := append([]byte(nil), d...); e[31] ^= 1; return e }
	circ("Keccak256Circuit", func() frontend.Circuit {
		return &Keccak256Circuit{InputValue: make([]uints.U8, 3), HashValue: make([]uints.U8, 32)}
	}, map[string]func() (frontend.Circuit, bool){
		"the digest":     func() (frontend.Circuit, bool) { m, d := mkH(msg, kd); return &Keccak256Circuit{m, d}, true },
		"another digest": func() (frontend.Circuit, bool) { m, d := mkH(msg, flip(kd)); return &Keccak256Circuit{m, d}, false },
	})
	circ("Sha256Circuit", func() frontend.Circuit {
		return &Sha256Circuit{InputValue: make([]uints.U8, 3), HashValue: make([]uints.U8, 32)}
	}, map[string]func() (frontend.Circuit, bool){
		"the digest":     func() (frontend.Circuit, bool) { m, d := mkH(msg, sh); return &Sha256Circuit{m, d}, true },
		"another digest": func() (frontend.Circuit, bool) { m, d := mkH(msg, flip(sh)); return &Sha256Circuit{m, d}, false },
	})
	// multi-scalar multiplication
	type MSM = MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]
	mkM := func(ks []*big.Int, ps []bn254.G1Affine, res bn254.G1Affine) *MSM {
		c := &MSM{}
		pt := func(p bn254.G1Affine) sw_emulated.AffinePoint[emparams.BN254Fp] {
			x, y := vXY(p)
			return sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](x), Y: emulated.ValueOf[emparams.BN254Fp](y)}
		}
		for i := range ks {
			c.Points = append(c.Points, pt(ps[i]))
			c.Scalars = append(c.Scalars, emulated.ValueOf[emparams.BN254Fr](ks[i]))
		}
		c.Res = pt(res)
		return c
	}
	k1, k2, p1, p2 := vRandR(), vRandR(), vRandPt(), vRandPt()
	sum := vAdd(vSmul(k1, p1), vSmul(k2, p2))
	circ("MultiScalarMul", func() frontend.Circuit {
		return &MSM{Points: make([]sw_emulated.AffinePoint[emparams.BN254Fp], 2), Scalars: make([]emulated.Element[emparams.BN254Fr], 2)}
	}, map[string]func() (frontend.Circuit, bool){
		"the sum": func() (frontend.Circuit, bool) {
			return mkM([]*big.Int{k1, k2}, []bn254.G1Affine{p1, p2}, sum), true
		},
		"another sum": func() (frontend.Circuit, bool) {
			return mkM([]*big.Int{k1, k2}, []bn254.G1Affine{p1, p2}, vAdd(sum, p1)), false
		},
	})
	// KYC
	g := vKycGood()
	kyc := func(k vKyc) frontend.Circuit {
		c := &Circuit{
			Signature: ecdsa.Signature[emulated.Secp256k1Fr]{R: emulated.ValueOf[emulated.Secp256k1Fr](k.r), S: emulated.ValueOf[emulated.Secp256k1Fr](k.s)},
			KycHash:   emulated.ValueOf[emulated.Secp256k1Fr](k.h),
		}
		c.ConditionHash.Age = [2]frontend.Variable{k.lo, k.hi}
		c.Kyc.Age, c.Kyc.Country, c.Kyc.Level, c.Kyc.Time = k.age, k.country, vI(k.level), vI(k.time)
		c.ConditionHash.Country = vVars(k.countries...)
		c.ConditionHash.Level = []frontend.Variable{vI(k.l)}
		c.ConditionHash.Time = []frontend.Variable{vI(k.t)}
		return c
	}
	old, elsewhere := g, g
	old.age = vI(51)
	elsewhere.country = vI(301)
	circ("the KYC circuit", func() frontend.Circuit {
		c := &Circuit{}
		c.ConditionHash.Country = make([]frontend.Variable, len(g.countries))
		c.ConditionHash.Level = make([]frontend.Variable, 1)
		c.ConditionHash.Time = make([]frontend.Variable, 1)
		return c
	}, map[string]func() (frontend.Circuit, bool){
		"a valid record":      func() (frontend.Circuit, bool) { return kyc(g), true },
		"an age out of range": func() (frontend.Circuit, bool) { return kyc(old), false },
		"another country":     func() (frontend.Circuit, bool) { return kyc(elsewhere), false },
	})
	// pairing
	_, _, _, g2 := bn254.Generators()
	pair := func(p, q bn254.G1Affine) frontend.Circuit {
		P, Q := sw_bn254.NewG1Affine(p), sw_bn254.NewG1Affine(q)
		H, K := sw_bn254.NewG2Affine(g2), sw_bn254.NewG2Affine(g2)
		return &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&P, &Q}, G2Points: [2]*sw_bn254.G2Affine{&H, &K}}
	}
	circ("BN256PairingCircuit", func() frontend.Circuit { return pair(vG, vG) }, map[string]func() (frontend.Circuit, bool){
		"a product that is one":     func() (frontend.Circuit, bool) { return pair(p1, vNeg(p1)), true },
		"a product that is not one": func() (frontend.Circuit, bool) { return pair(p1, p2), false },
	})
	vParallel(len(jobs), func(i int) { jobs[i]() })
}
