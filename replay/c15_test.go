//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
)

// C15: multi-scalar multiplication with wrong results for every length.
func TestVerifC15(t *testing.T) {
	defer vDone(t)
	type Pt = sw_emulated.AffinePoint[emparams.BN254Fp]
	type Sc = emulated.Element[emparams.BN254Fr]
	mk := func(x, y *big.Int) Pt {
		return Pt{X: emulated.ValueOf[emparams.BN254Fp](x), Y: emulated.ValueOf[emparams.BN254Fp](y)}
	}
	run := func(ps []bn254.G1Affine, ks []*big.Int, x, y *big.Int, circ bool) error {
		return vRun(func(api frontend.API) error {
			var P []Pt
			var S []Sc
			for _, p := range ps {
				px, py := vXY(p)
				P = append(P, mk(px, py))
			}
			for _, k := range ks {
				S = append(S, emulated.ValueOf[emparams.BN254Fr](k))
			}
			if circ {
				c := &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{Points: P, Scalars: S, Res: mk(x, y)}
				return c.Define(api)
			}
			return VerifyMultiScalarMul(api, P, S, mk(x, y))
		})
	}
	sum := func(ps []bn254.G1Affine, ks []*big.Int) bn254.G1Affine {
		var r bn254.G1Affine
		for i := range ps {
			r = vAdd(r, vSmul(ks[i], ps[i]))
		}
		return r
	}
	var jobs []func()
	for n := 1; n <= 6; n++ {
		var ps []bn254.G1Affine
		var ks []*big.Int
		for i := 0; i < n; i++ {
			ps, ks = append(ps, vRandPt()), append(ks, vRandR())
			if n == 4 && i == 2 {
				ks[i] = vI(1)
			}
		}
		want := sum(ps, ks)
		wx, wy := vXY(want)
		for _, circ := range []bool{false, true} {
			if n > 2 && circ != (n%2 == 0) {
				continue
			}
			jobs = append(jobs, func() {
				vCase()
				if err := run(ps, ks, wx, wy, circ); err != nil {
					vFail("the sum of %d terms is rejected (points %v, scalars %v): %v", n, ps, ks, err)
				}
			})
			bad := func(what string, x, y *big.Int) {
				if vEqP(x, wx) && vEqP(y, wy) {
					return
				}
				jobs = append(jobs, func() {
					vCase()
					if run(ps, ks, x, y, circ) == nil {
						vFail("(%v, %v) (%s) is accepted as the sum of %d terms: points %v, scalars %v", x, y, what, n, ps, ks)
					}
				})
			}
			badP := func(what string, p bn254.G1Affine) { x, y := vXY(p); bad(what, x, y) }
			bad("another y", wx, new(big.Int).Sub(vP, wy))
			bad("another y", wx, new(big.Int).Add(wy, vI(1)))
			bad("another x", new(big.Int).Add(wx, vI(1)), wy)
			bad("infinity", vI(0), vI(0))
			for i := 0; i < n; i++ {
				badP("a term is missing", sum(append(append([]bn254.G1Affine(nil), ps[:i]...), ps[i+1:]...), append(append([]*big.Int(nil), ks[:i]...), ks[i+1:]...)))
				badP("one term only", sum(ps[i:i+1], ks[i:i+1]))
				badP("a prefix", sum(ps[:i], ks[:i]))
				c := append([]*big.Int(nil), ks...)
				c[i] = vI(1)
				badP("a scalar is ignored", sum(ps, c))
				c = append([]*big.Int(nil), ks...)
				c[i], c[(i+1)%n] = c[(i+1)%n], c[i]
				badP("scalars exchanged", sum(ps, c))
			}
			for _, m := range []int{0, n - 1, n + 1, n + 3} {
				ks2 := append([]*big.Int(nil), ks...)
				ps2 := ps
				if m <= n {
					ks2 = ks2[:m]
				}
				for len(ks2) < m {
					ks2 = append(ks2, vRandR())
				}
				k := min(m, n)
				for _, w := range []bn254.G1Affine{sum(ps[:k], ks[:k]), want, {}} {
					jobs = append(jobs, func() {
						vCase()
						x, y := vXY(w)
						if m != n && run(ps2, ks2, x, y, circ) == nil {
							vFail("%d points and %d scalars are accepted, with the sum %v", len(ps2), len(ks2), w)
						}
					})
				}
			}
		}
	}
	// longer lists: the sum, and the sum without one of its terms
	for _, n := range []int{7, 8, 9, 11, 13, 16, 17, 20, 31, 33} {
		var ps []bn254.G1Affine
		var ks []*big.Int
		for i := 0; i < n; i++ {
			ps, ks = append(ps, vRandPt()), append(ks, vRandR())
		}
		want := sum(ps, ks)
		try := func(what string, w bn254.G1Affine, ok bool) {
			jobs = append(jobs, func() {
				vCase()
				x, y := vXY(w)
				if err := run(ps, ks, x, y, n%2 == 0); (err == nil) != ok {
					vFail("%s, as the sum of %d terms: %v (points %v, scalars %v)", what, n, err, ps, ks)
				}
			})
		}
		try("the sum", want, true)
		for _, i := range []int{0, n / 2, n - 1} {
			try(fmt.Sprintf("the sum without term %d", i), vAdd(want, vNeg(vSmul(ks[i], ps[i]))), false)
		}
		for _, m := range []int{n / 8 * 8, n / 4 * 4, n / 2 * 2, n / 5 * 5, n - 1, 1, 2, 4, 8, 16} {
			if m < n {
				try(fmt.Sprintf("the sum of the first %d terms", m), sum(ps[:m], ks[:m]), false)
			}
		}
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
}
