//go:build go1.22

//uses: real

package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
)

// C03: the pairing gadget on products that are and are not one, the transfer
// of the points, and the aggregation circuit with another proof's points.
func TestVerifC03(t *testing.T) {
	defer vDone(t)
	_, _, _, g2 := bn254.Generators()
	mulG2 := func(k *big.Int) bn254.G2Affine { return *new(bn254.G2Affine).ScalarMultiplication(&g2, k) }
	type pair struct{ a, b *big.Int } // e(aG, bH)
	holds := func(ps []pair) bool {
		s := vI(0)
		for _, p := range ps {
			s = vAddR(s, vMulR(p.a, p.b))
		}
		return s.Sign() == 0
	}
	run := func(circ bool, g1s []bn254.G1Affine, g2s []bn254.G2Affine) error {
		return vRun(func(api frontend.API) error {
			var P []*sw_bn254.G1Affine
			var Q []*sw_bn254.G2Affine
			for _, p := range g1s {
				w := sw_bn254.NewG1Affine(p)
				P = append(P, &w)
			}
			for _, q := range g2s {
				w := sw_bn254.NewG2Affine(q)
				Q = append(Q, &w)
			}
			if circ {
				c := &BN256PairingCircuit{}
				copy(c.G1Points[:], P)
				copy(c.G2Points[:], Q)
				return c.Define(api)
			}
			return VerifyBN256Pairing(api, P, Q)
		})
	}
	var jobs []func()
	add := func(what string, ps []pair) {
		for _, circ := range []bool{false, true} {
			if circ && len(ps) != 2 {
				continue
			}
			jobs = append(jobs, func() {
				vCase()
				var g1s []bn254.G1Affine
				var g2s []bn254.G2Affine
				for _, p := range ps {
					g1s, g2s = append(g1s, vMulG(p.a)), append(g2s, mulG2(p.b))
				}
				err := run(circ, g1s, g2s)
				if h := holds(ps); h != (err == nil) {
					vFail("%s: the product of the %d pairings e(aG, bH) with (a, b) = %v is one: %v, but the gadget (circuit: %v) says %v", what, len(ps), ps, h, circ, err)
				}
			})
		}
	}
	rr := func() *big.Int { return vRandR() }
	neg := func(x *big.Int) *big.Int { return vSubR(vI(0), x) }
	for n := 0; n < 2; n++ {
		a, b, c := rr(), rr(), rr()
		add("one pair", []pair{{a, b}})
		add("opposite pairs", []pair{{a, b}, {neg(vMulR(a, b)), vI(1)}})
		add("opposite pairs", []pair{{vMulR(a, c), b}, {neg(a), vMulR(b, c)}})
		add("equal pairs", []pair{{a, b}, {a, b}})
		add("first pair only", []pair{{a, b}, {c, b}})
		add("swapped", []pair{{a, c}, {neg(c), b}})
		d, e := rr(), rr()
		s := vAddR(vMulR(a, b), vMulR(c, d))
		add("three pairs", []pair{{a, b}, {c, d}, {neg(s), vI(1)}})
		add("three pairs", []pair{{a, b}, {c, d}, {s, vI(1)}})
		add("three pairs, two of which cancel", []pair{{a, b}, {neg(a), b}, {c, d}})
		s4 := vAddR(s, vMulR(e, b))
		add("four pairs", []pair{{a, b}, {c, d}, {e, b}, {neg(s4), vI(1)}})
		add("four pairs", []pair{{a, b}, {neg(a), b}, {c, d}, {e, b}})
		add("four pairs", []pair{{a, b}, {c, d}, {e, b}, {neg(e), b}})
		add("five pairs", []pair{{a, b}, {neg(a), b}, {c, d}, {neg(c), d}, {e, b}})
		add("six pairs", []pair{{a, b}, {c, d}, {e, b}, {neg(s4), vI(1)}, {a, c}, {neg(a), c}})
	}
	for _, k := range []int{0, 1, 3} {
		jobs = append(jobs, func() {
			vCase()
			a := rr()
			g1s := []bn254.G1Affine{vMulG(a), vMulG(neg(a))}
			var g2s []bn254.G2Affine
			for i := 0; i < k; i++ {
				g2s = append(g2s, g2)
			}
			if run(false, g1s, g2s) == nil {
				vFail("two G1 points and %d G2 points are accepted", k)
			}
		})
	}
	// the points handed over
	val := func(e *sw_bn254.G1Affine) (x, y *big.Int) {
		return vEmuVal(e.X.Limbs), vEmuVal(e.Y.Limbs)
	}
	for n := 0; n < 8; n++ {
		jobs = append(jobs, func() {
			vCase()
			p, q := vRandPt(), vRandPt()
			px, py := vXY(p)
			qx, qy := vXY(q)
			c := &BN256PairingCircuit{}
			if err := vSafe(func() error {
				c.FillVerifyCircuitsG1(new(big.Int).Set(px), new(big.Int).Set(py), new(big.Int).Set(qx), new(big.Int).Set(qy))
				return nil
			}); err != nil {
				vFail("FillVerifyCircuitsG1(%v, %v, %v, %v): %v", px, py, qx, qy, err)
				return
			}
			x, y := val(c.G1Points[0])
			if x.Cmp(px) != 0 || y.Cmp(py) != 0 {
				vFail("FillVerifyCircuitsG1(%v, %v, %v, %v): the first point is (%v, %v)", px, py, qx, qy, x, y)
			}
			x, y = val(c.G1Points[1])
			if x.Cmp(qx) != 0 || y.Cmp(qy) != 0 {
				vFail("FillVerifyCircuitsG1(%v, %v, %v, %v): the second point is (%v, %v)", px, py, qx, qy, x, y)
			}
			for i, bad := range [][4]*big.Int{{px, qy, qx, qy}, {px, py, qx, py}, {qx, py, qx, qy}, {px, py, px, qy}} {
				if vSafe(func() error { c.FillVerifyCircuitsG1(bad[0], bad[1], bad[2], bad[3]); return nil }) == nil {
					vFail("FillVerifyCircuitsG1 takes points off the curve: %v (%d)", bad, i)
				}
			}
		})
	}
	jobs = append(jobs, func() {
		vCase()
		want := [2][4]string{
			{"13560776910958896778309428450808722712362583089620853136731412215646945297830", "17006984783035916014836003241042945838018391379603479329912940809520477208052",
				"18091431719069275340788954644764755415339503689597559484185985670418402491565", "12900589361605111856143562381318004229723309245412571888359653960504992734777"},
			{"10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634",
				"13392588948715843804641432497768002650278120570034223513918757245338268106653", "17805874995975841540914202342111839520379459829704422454583296818431106115052"},
		}
		c := &BN256PairingCircuit{}
		if err := vSafe(func() error { c.FillVerifyCircuitsG2(); return nil }); err != nil {
			vFail("FillVerifyCircuitsG2: %v", err)
			return
		}
		for i, q := range c.G2Points {
			got := [4]*big.Int{vEmuVal(q.P.X.A0.Limbs), vEmuVal(q.P.X.A1.Limbs), vEmuVal(q.P.Y.A0.Limbs), vEmuVal(q.P.Y.A1.Limbs)}
			for k := range got {
				if got[k].String() != want[i][k] {
					vFail("FillVerifyCircuitsG2: coordinate %d of point %d is %v, not %s", k, i, got[k], want[i][k])
				}
			}
		}
	})
	// the whole circuit: the valid proof, and proofs wrong in the final point only
	whole := func(what string, a *vAgg, ok bool) func() {
		return func() {
			vCase()
			if _, err := a.define(nil); (err == nil) != ok {
				vFail("the aggregation circuit on %s: %v", what, err)
			}
		}
	}
	var first []func()
	first = append(first, whole("the valid proof", vReal(), true))
	for _, q := range []bn254.G1Affine{vRandPt(), vNeg(vPt(vReal().proof[102], vReal().proof[103])), vG} {
		a := vReal()
		a.proof[102], a.proof[103] = vXY(q)
		first = append(first, whole("the valid proof with another W' "+q.String(), a, false))
	}
	jobs = append(first, jobs...)
	vParallel(len(jobs), func(i int) { jobs[i]() })
}
