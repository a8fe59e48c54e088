//go:build go1.22

//uses: real

package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/ethereum/go-ethereum/crypto"
)

// C19: every hint of every gadget failing in turn, conversions that fail, and
// the hints of the aggregation circuit failing one at a time.
func TestVerifC19(t *testing.T) {
	defer vDone(t)
	errInjected := errors.New("injected failure")
	var jobs []func()
	// faulty: every hint created by f fails in turn; f must fail, or give an
	// error in place of a value
	faulty := func(what string, f func(api frontend.API) ([]frontend.Variable, error)) {
		jobs = append(jobs, func() {
			n := 0
			count := func(failAt int) (res []frontend.Variable, err error, hit bool) {
				err = vRun(func(api frontend.API) error {
					w := vWrap(api, func(string, int, []*big.Int, []*big.Int) error { return nil })
					w.c.fail = func(name string, call int) error {
						if failAt < 0 && call+1 > n {
							n = call + 1
						}
						if call == failAt {
							hit = true
							return errInjected
						}
						return nil
					}
					var e error
					res, e = f(w)
					return e
				})
				return
			}
			vCase()
			if _, err, _ := count(-1); err != nil {
				vFail("%s fails on honest values: %v", what, err)
				return
			}
			for k := 0; k < n && k < 12; k++ {
				vCase()
				res, err, hit := count(k)
				if err != nil || !hit {
					continue
				}
				poisoned := false
				for _, v := range res {
					if _, is := v.(error); is {
						poisoned = true
					}
				}
				if !poisoned {
					vFail("%s returns normally (%v) although the creation of its hint number %d failed", what, res, k)
				}
			}
			// operations of the builder that panic
			boom := func(at int) (ops int, hit string, err error) {
				err = vRun(func(api frontend.API) error {
					w := vWrap(api, nil)
					w.onOp = func(name string) {
						ops++
						if ops-1 == at {
							hit = name
							panic("injected panic")
						}
					}
					_, e := f(w)
					return e
				})
				return
			}
			ops, _, _ := boom(-1)
			for k := 0; k < ops; k += 1 + ops/8 {
				vCase()
				if _, hit, err := boom(k); err == nil && hit != "" {
					vFail("%s returns normally although operation number %d of the builder (%s) panicked", what, k, hit)
				}
			}
		})
	}
	vs := func(v ...frontend.Variable) []frontend.Variable { return v }
	p, q, k := vRandPt(), vRandPt(), vRandR()
	px, py := vXY(p)
	qx, qy := vXY(q)
	c := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
	a, b := vRandR(), vRandR()
	faulty("mod", func(api frontend.API) ([]frontend.Variable, error) { return vs(mod(api, c(a))), nil })
	faulty("fr_add", func(api frontend.API) ([]frontend.Variable, error) { return vs(fr_add(api, c(a), c(b))), nil })
	faulty("fr_mul", func(api frontend.API) ([]frontend.Variable, error) { return vs(fr_mul(api, c(a), c(b))), nil })
	faulty("fr_pow", func(api frontend.API) ([]frontend.Variable, error) { return vs(fr_pow(api, c(a), vI(5))), nil })
	faulty("fr_div", func(api frontend.API) ([]frontend.Variable, error) {
		return vs(fr_div(api, vI(6), vI(3), vI(2))), nil
	})
	faulty("CalcVerifyBN256Msm", func(api frontend.API) ([]frontend.Variable, error) {
		r, err := CalcVerifyBN256Msm(api, c(px), c(py), c(k))
		return r[:], err
	})
	faulty("CalcVerifyBN256Add", func(api frontend.API) ([]frontend.Variable, error) {
		r, err := CalcVerifyBN256Add(api, c(px), c(py), c(qx), c(qy))
		return r[:], err
	})
	faulty("CalcVerifyBN256Msm1", func(api frontend.API) ([]frontend.Variable, error) {
		r, err := CalcVerifyBN256Msm1(api, c(px), c(py), c(k))
		return r[:], err
	})
	faulty("CalcVerifyBN256Add1", func(api frontend.API) ([]frontend.Variable, error) {
		r, err := CalcVerifyBN256Add1(api, c(px), c(py), c(qx), c(qy))
		return r[:], err
	})
	faulty("ecc_mul", func(api frontend.API) ([]frontend.Variable, error) {
		v := vVars(px, py, k)
		err := ecc_mul(api, v, 0)
		return v, err
	})
	faulty("ecc_mul_add", func(api frontend.API) ([]frontend.Variable, error) {
		v := vVars(px, py, qx, qy, k)
		err := ecc_mul_add(api, v, 0)
		return v, err
	})
	faulty("CalcVerifyCircuitLagrange", func(api frontend.API) ([]frontend.Variable, error) {
		v := vVars(px, py, k)
		err := CalcVerifyCircuitLagrange(api, v)
		return v[:2], err
	})
	faulty("VerifyInstanceHash", func(api frontend.API) ([]frontend.Variable, error) {
		h, err := VerifyInstanceHash(api, vVars(a, b, vI(0), vI(1), k))
		return vs(h), err
	})
	u8 := func(b []byte) []uints.U8 { return uints.NewU8Array(b) }
	faulty("VerifyKeccak256", func(api frontend.API) ([]frontend.Variable, error) {
		return nil, VerifyKeccak256(api, u8([]byte("abc")), u8(crypto.Keccak256([]byte("abc"))))
	})
	faulty("VerifySha256", func(api frontend.API) ([]frontend.Variable, error) {
		return nil, VerifySha256(api, u8([]byte("abc")), u8(vSha([]byte("abc"))))
	})
	faulty("VerifyBN254Add", func(api frontend.API) ([]frontend.Variable, error) {
		sx, sy := vXY(vAdd(p, q))
		return nil, VerifyBN254Add(api, [2]frontend.Variable{c(px), c(py)}, [2]frontend.Variable{c(qx), c(qy)}, [2]frontend.Variable{sx, sy})
	})
	faulty("VerifyBN254ScalarMul", func(api frontend.API) ([]frontend.Variable, error) {
		mx, my := vXY(vSmul(k, p))
		return nil, VerifyBN254ScalarMul(api, [2]frontend.Variable{c(px), c(py)}, c(k), [2]frontend.Variable{mx, my})
	})
	faulty("VerifyCheckOnCurve", func(api frontend.API) ([]frontend.Variable, error) {
		return nil, VerifyCheckOnCurve(api, c(px), c(py))
	})
	// conversions that fail
	bad := func(what string, f func(api frontend.API, v frontend.Variable) error) {
		for _, v := range []frontend.Variable{[]int{1}, struct{ A int }{3}, "zz"} {
			jobs = append(jobs, func() {
				vCase()
				if vRun(func(api frontend.API) error { return f(api, v) }) == nil {
					vFail("%s takes %#v as a coordinate", what, v)
				}
			})
		}
	}
	pt := func(x, y frontend.Variable) [2]frontend.Variable { return [2]frontend.Variable{x, y} }
	sx, sy := vXY(vAdd(p, q))
	mx, my := vXY(vSmul(k, p))
	for i := 0; i < 6; i++ {
		set := func(v frontend.Variable, l ...*big.Int) []frontend.Variable {
			r := vVars(l...)
			if i < len(r) {
				r[i] = v
			} else {
				r[0] = v
			}
			return r
		}
		bad(fmt.Sprintf("VerifyBN254Add (operand %d)", i), func(api frontend.API, v frontend.Variable) error {
			r := set(v, px, py, qx, qy, sx, sy)
			return VerifyBN254Add(api, pt(r[0], r[1]), pt(r[2], r[3]), pt(r[4], r[5]))
		})
		bad(fmt.Sprintf("VerifyBN254ScalarMul (operand %d)", i), func(api frontend.API, v frontend.Variable) error {
			r := set(v, px, py, k, mx, my)
			return VerifyBN254ScalarMul(api, pt(r[0], r[1]), r[2], pt(r[3], r[4]))
		})
		if i < 2 {
			bad(fmt.Sprintf("VerifyCheckOnCurve (operand %d)", i), func(api frontend.API, v frontend.Variable) error {
				r := set(v, px, py)
				return VerifyCheckOnCurve(api, r[0], r[1])
			})
		}
		if i < 4 {
			bad(fmt.Sprintf("FillVerifyCircuitsG1 (operand %d)", i), func(api frontend.API, v frontend.Variable) error {
				r := set(v, px, py, qx, qy)
				(&BN256PairingCircuit{}).FillVerifyCircuitsG1(r[0], r[1], r[2], r[3])
				return nil
			})
		}
	}
	// on-curve checks that fail, at every commitment that is absorbed
	for i := -1; i < 23; i++ {
		jobs = append(jobs, func() {
			vCase()
			pr := make([]frontend.Variable, 104)
			for j := range pr {
				pr[j] = vI(int64(1 + j%2)) // the generator
			}
			at := 2*i + 1
			if i == 22 {
				at = 101
			}
			if i >= 0 {
				pr[at] = vI(3)
			}
			err := vRun(func(api frontend.API) error {
				buf := make([]frontend.Variable, 43)
				for j := range buf {
					buf[j] = vI(0)
				}
				buf[0], buf[1] = vI(1), vI(2)
				return GetChallengesShPlonkCircuit(api, buf, pr)
			})
			if i < 0 && err != nil {
				vFail("GetChallengesShPlonkCircuit rejects points that are all on the curve: %v", err)
			} else if i >= 0 && err == nil {
				vFail("GetChallengesShPlonkCircuit carries on although the on-curve check of commitment %d (word %d) failed", i, at)
			}
		})
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
	if vOver() {
		return
	}
	// the aggregation circuit
	real := vReal()
	agg := func(failAt func(name string, call int) bool) (hit string, err error) {
		_, err = real.define(func(api frontend.API) frontend.API {
			w := vWrap(api, func(string, int, []*big.Int, []*big.Int) error { return nil })
			w.c.fail = func(name string, call int) error {
				if failAt(name, call) {
					hit = fmt.Sprintf("%s, call %d", name, call)
					return errInjected
				}
				return nil
			}
			return w
		})
		return
	}
	var mu sync.Mutex
	var calls, others []int
	if _, err := agg(func(name string, call int) bool {
		mu.Lock()
		defer mu.Unlock()
		if strings.HasSuffix(name, ".modHint") {
			others = append(others, call)
		} else {
			calls = append(calls, call)
		}
		return false
	}); err != nil {
		vFail("the aggregation circuit rejects a valid proof: %v", err)
		return
	}
	vRand.Shuffle(len(others), func(i, j int) { others[i], others[j] = others[j], others[i] })
	calls = append(calls, others...)
	if n := 64; len(calls) > n && !vThorough {
		calls = calls[:n]
	}
	vParallel(len(calls), func(i int) {
		vCase()
		if hit, err := agg(func(name string, call int) bool { return call == calls[i] }); err == nil && hit != "" {
			vFail("the aggregation circuit accepts although the creation of a hint failed (%s)", hit)
		}
	})
}
