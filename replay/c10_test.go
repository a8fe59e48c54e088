//go:build go1.22

package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/crypto"
)

// C10: hint functions against reference arithmetic, inputs untouched, and the
// registration of every hint a circuit asks for.
func TestVerifC10(t *testing.T) {
	defer vDone(t)
	call := func(name string, h solver.Hint, in []*big.Int, n int) ([]*big.Int, error) {
		vCase()
		out := make([]*big.Int, n)
		for i := range out {
			out[i] = vI(int64(77 + i))
		}
		cp := make([]*big.Int, len(in))
		for i := range in {
			cp[i] = new(big.Int).Set(in[i])
		}
		q := new(big.Int).Set(vR)
		err := vSafe(func() error { return h(q, cp, out) })
		for i := range in {
			if cp[i].Cmp(in[i]) != 0 {
				vFail("%s changes its input %d from %v to %v", name, i, in[i], cp[i])
			}
		}
		if q.Cmp(vR) != 0 {
			vFail("%s changes the modulus it is given", name)
		}
		return out, err
	}
	pt := func(name string, h solver.Hint, in []*big.Int, want bn254.G1Affine) {
		out, err := call(name, h, in, 2)
		x, y := vXY(want)
		if err != nil {
			vFail("%s(%v): %v", name, in, err)
		} else if out[0].Cmp(x) != 0 || out[1].Cmp(y) != 0 {
			vFail("%s(%v) = %v, want (%v, %v)", name, in, out, x, y)
		}
	}
	inf := bn254.G1Affine{}
	ps := []bn254.G1Affine{vG, vNeg(vG), inf}
	for i := 0; i < 30; i++ {
		ps = append(ps, vRandPt())
	}
	ks := append(vBoundary(), new(big.Int).Set(vR), new(big.Int).Add(vR, vI(5)), new(big.Int).Sub(new(big.Int).Lsh(vI(1), 254), vI(1)))
	for i := 0; i < 10; i++ {
		ks = append(ks, vRandR())
	}
	for i, p := range ps {
		x, y := vXY(p)
		for j, k := range ks {
			if i < 5 || (i+j)%5 == 0 {
				pt("MsmHint", MsmHint, []*big.Int{x, y, k}, vSmul(k, p))
			}
		}
		for j, q := range append(append([]bn254.G1Affine(nil), ps[:8]...), p, vNeg(p)) {
			if i < 6 || j > 4 {
				x2, y2 := vXY(q)
				pt("AddHint", AddHint, []*big.Int{x, y, x2, y2}, vAdd(p, q))
			}
		}
	}
	for _, in := range [][]*big.Int{{vI(1), vI(3), vI(5)}, {vI(2), vI(2), vI(1)}, {vI(0), vI(1), vI(1)}} {
		if _, err := call("MsmHint", MsmHint, in, 2); err == nil {
			vFail("MsmHint accepts the point (%v, %v), which is not on the curve", in[0], in[1])
		}
	}
	for _, in := range [][]*big.Int{{vI(1), vI(3), vI(1), vI(2)}, {vI(1), vI(2), vI(1), vI(3)}} {
		if _, err := call("AddHint", AddHint, in, 2); err == nil {
			vFail("AddHint accepts the points %v, not all on the curve", in)
		}
	}
	vals := vBoundary()
	for i := 0; i < 100; i++ {
		vals = append(vals, vRandR())
	}
	for i := int64(1); i < 6; i++ {
		m := new(big.Int).Mul(vR, vI(i))
		vals = append(vals, m, new(big.Int).Sub(m, vI(1)), new(big.Int).Add(m, vI(1)), new(big.Int).Mul(m, m))
	}
	for _, a := range vals {
		out, err := call("modHint", modHint, []*big.Int{a}, 2)
		if err != nil {
			vFail("modHint(%v): %v", a, err)
			continue
		}
		q, r := new(big.Int).QuoRem(a, vR, new(big.Int))
		if out[0].Cmp(q) != 0 || out[1].Cmp(r) != 0 {
			vFail("modHint(%v) = %v, want quotient %v, remainder %v", a, out, q, r)
		}
	}
	for n := 1; n < 8; n++ {
		cases := 12
		if n < 4 {
			cases = 1500 // digests that begin or end with zero bytes among them
		}
		for k := 0; k < cases; k++ {
			in := make([]*big.Int, n)
			for i := range in {
				in[i] = vals[(k*5+i*3)%len(vals[:100])]
				if k > 8 {
					in[i] = vRandR()
				}
			}
			out, err := call("Keccak256Hint", Keccak256Hint, in, 33+32*n)
			if err != nil {
				vFail("Keccak256Hint(%v): %v", in, err)
				continue
			}
			var b []byte
			for _, w := range in {
				b = append(b, w.FillBytes(make([]byte, 32))...)
			}
			h := crypto.Keccak256(b)
			if out[0].Cmp(new(big.Int).SetBytes(h)) != 0 {
				vFail("Keccak256Hint(%v)[0] = %v, want %x", in, out[0], h)
			}
			for i := range h {
				if out[1+i].Cmp(vI(int64(h[i]))) != 0 {
					vFail("Keccak256Hint(%v): hash byte %d is %v, want %d", in, i, out[1+i], h[i])
				}
			}
			for i := range b {
				if out[33+i].Cmp(vI(int64(b[i]))) != 0 {
					vFail("Keccak256Hint(%v): preimage byte %d is %v, want %d", in, i, out[33+i], b[i])
				}
			}
		}
	}
	// registration
	reg := map[string]bool{}
	for _, h := range solver.GetRegisteredHints() {
		reg[vHintName(h)] = true
	}
	p, q := vRandPt(), vRandPt()
	x, y := vXY(p)
	x2, y2 := vXY(q)
	uses := map[string]func(api frontend.API) error{
		"CalcVerifyBN256Msm":  func(api frontend.API) error { _, e := CalcVerifyBN256Msm(api, x, y, vI(5)); return e },
		"CalcVerifyBN256Msm1": func(api frontend.API) error { _, e := CalcVerifyBN256Msm1(api, x, y, vI(5)); return e },
		"CalcVerifyBN256Add":  func(api frontend.API) error { _, e := CalcVerifyBN256Add(api, x, y, x2, y2); return e },
		"CalcVerifyBN256Add1": func(api frontend.API) error { _, e := CalcVerifyBN256Add1(api, x, y, x2, y2); return e },
		"VerifyInstanceHash":  func(api frontend.API) error { _, e := VerifyInstanceHash(api, vVars(vI(1), vI(2))); return e },
		"mod":                 func(api frontend.API) error { mod(api, vI(5)); return nil },
		"fr_mul":              func(api frontend.API) error { fr_mul(api, vI(5), vI(6)); return nil },
		"fr_div":              func(api frontend.API) error { fr_div(api, vI(6), vI(2), vI(3)); return nil },
		"VerifyNotZero":       func(api frontend.API) error { return VerifyNotZero(api, vI(6)) },
		"VerifyRangeCheck":    func(api frontend.API) error { return VerifyRangeCheck(api, vI(6), vI(2), vI(8)) },
	}
	for n, f := range uses {
		vCase()
		for h := range vHints(f) {
			if !reg[h] {
				vFail("%s asks for the hint %s, which is not registered with the solver", n, h)
			}
		}
	}
}
