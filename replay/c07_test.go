//go:build go1.22

package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
)

type vNZ struct{ X frontend.Variable }

func (c *vNZ) Define(api frontend.API) error { return VerifyNotZero(api, c.X) }

// C07: the non-zero gadget.
func TestVerifC07(t *testing.T) {
	defer vDone(t)
	for n, b := range map[string]frontend.NewBuilder{"plonk": scs.NewBuilder, "r1cs": r1cs.NewBuilder} {
		vCase()
		if e := vSafe(func() error {
			ccs, err := frontend.Compile(vR, b, &vNZ{})
			if err != nil {
				return nil // see C20
			}
			for _, x := range []*big.Int{vI(0), vI(1), new(big.Int).Sub(vR, vI(1)), vRandR()} {
				w, err := frontend.NewWitness(&vNZ{X: x}, vR)
				if err != nil {
					return nil
				}
				if err := ccs.IsSolved(w); (err == nil) != (x.Sign() != 0) {
					vFail("the %s constraints of VerifyNotZero(%v): %v", n, x, err)
				}
			}
			return nil
		}); e != nil {
			vFail("VerifyNotZero under %s: %v", n, e)
		}
	}
	vals := vBoundary()
	for i := 0; i < 253; i++ {
		vals = append(vals, new(big.Int).Lsh(vI(1), uint(i)))
	}
	for i := 0; i < 200; i++ {
		vals = append(vals, vRandR())
	}
	for _, v := range vals {
		vCase()
		err := vRun(func(api frontend.API) error { return VerifyNotZero(api, new(big.Int).Set(v)) })
		if (err == nil) != (v.Sign() != 0) {
			vFail("VerifyNotZero(%v): %v", v, err)
		}
		post := func(api frontend.API) (func() string, error) {
			err := VerifyNotZero(api, new(big.Int).Set(v))
			return func() string {
				if v.Sign() == 0 {
					return "zero is accepted"
				}
				return ""
			}, err
		}
		if v.Sign() == 0 {
			vAttack("VerifyNotZero(0)", post)
		}
	}
}
