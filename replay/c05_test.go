//go:build go1.22

package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

// C05: on-curve gadgets for single points, and every commitment of a proof.
func TestVerifC05(t *testing.T) {
	defer vDone(t)
	gadgets := map[string]func(api frontend.API, x, y frontend.Variable) error{
		"VerifyCheckOnCurve":    VerifyCheckOnCurve,
		"VerifyCheckOnCurveVar": VerifyCheckOnCurveVar,
		"CheckOnCurveCircuit": func(api frontend.API, x, y frontend.Variable) error {
			return CheckOnCurveCircuit{X: x, Y: y}.Define(api)
		},
		"CheckOnCurveCircuitVar": func(api frontend.API, x, y frontend.Variable) error {
			return CheckOnCurveCircuitVar{X: x, Y: y}.Define(api)
		},
	}
	on := func(x, y *big.Int) bool {
		l := new(big.Int).Exp(y, vI(2), vP)
		r := new(big.Int).Exp(x, vI(3), vP)
		r.Add(r, vI(3)).Mod(r, vP)
		zero := new(big.Int).Mod(x, vP).Sign() == 0 && new(big.Int).Mod(y, vP).Sign() == 0
		return l.Cmp(r) == 0 || zero
	}
	var pts [][2]*big.Int
	for i := 0; i < 40; i++ {
		x, y := vXY(vRandPt())
		ny := new(big.Int).Sub(vP, y)
		pts = append(pts, [2]*big.Int{x, y}, [2]*big.Int{x, ny}, [2]*big.Int{x, new(big.Int).Add(y, vI(1))}, [2]*big.Int{new(big.Int).Add(x, vI(1)), y},
			[2]*big.Int{y, x}, [2]*big.Int{vRandR(), vRandR()}, [2]*big.Int{x, vI(0)}, [2]*big.Int{vI(0), y}, [2]*big.Int{x, vI(1)}, [2]*big.Int{x, new(big.Int).Sub(y, vI(1))})
	}
	m1 := new(big.Int).Sub(vP, vI(1))
	pts = append(pts, [2]*big.Int{vI(0), vI(0)}, [2]*big.Int{vI(1), vI(2)}, [2]*big.Int{vI(1), new(big.Int).Sub(vP, vI(2))}, [2]*big.Int{vI(1), vI(1)},
		[2]*big.Int{vI(0), vI(1)}, [2]*big.Int{vI(1), vI(0)}, [2]*big.Int{m1, m1}, [2]*big.Int{vI(2), vI(3)})
	for n, g := range gadgets {
		vParallel(len(pts), func(i int) {
			vCase()
			x, y := pts[i][0], pts[i][1]
			err := vRun(func(api frontend.API) error { return g(api, new(big.Int).Set(x), new(big.Int).Set(y)) })
			if (err == nil) != on(x, y) {
				vFail("%s(%v, %v): error %v, but on the curve: %v", n, x, y, err, on(x, y))
			}
		})
	}
	get := func(tr []*big.Int) error {
		buf := make([]frontend.Variable, 43)
		for i := range buf {
			buf[i] = big.NewInt(0)
		}
		buf[0], buf[1] = vI(1), vI(2)
		return vRun(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf, vVars(tr...)) })
	}
	base := vTranscript5()
	if err := get(base); err != nil {
		vFail("GetChallengesShPlonkCircuit rejects a transcript of points on the curve %v: %v", base, err)
	}
	vParallel(24*4, func(k int) {
		vCase()
		i := 2 * (k / 4)
		if i >= 44 {
			i += 56
		}
		tr := append([]*big.Int(nil), base...)
		switch k % 4 {
		case 0:
			tr[i] = new(big.Int).Add(tr[i], vI(1))
		case 1:
			tr[i+1] = new(big.Int).Add(tr[i+1], vI(1))
		case 2:
			tr[i], tr[i+1] = tr[i+1], tr[i]
		case 3:
			tr[i], tr[i+1] = vI(1), vI(3)
		}
		if get(tr) == nil {
			vFail("a transcript with the point (%v, %v) off the curve at words %d, %d is accepted (the other words: %v)", tr[i], tr[i+1], i, i+1, base)
		}
		// also accepts another point and infinity there
		if k%4 == 3 {
			tr[i], tr[i+1] = vI(0), vI(0)
			if err := get(tr); err != nil {
				vFail("a transcript with the point at infinity at words %d, %d is rejected: %v", i, i+1, err)
			}
		}
	})
	// the commitments handed to the final pairing
	if err := vSafe(func() error {
		var c BN256PairingCircuit
		c.FillVerifyCircuitsG1(vI(1), vI(2), vI(1), vI(2))
		return nil
	}); err != nil {
		vFail("FillVerifyCircuitsG1 rejects the generator: %v", err)
	}
	for i, a := range [][4]int64{{1, 3, 1, 2}, {1, 2, 1, 3}, {2, 2, 1, 2}, {1, 2, 2, 2}} {
		vCase()
		if vSafe(func() error {
			var c BN256PairingCircuit
			c.FillVerifyCircuitsG1(vI(a[0]), vI(a[1]), vI(a[2]), vI(a[3]))
			return nil
		}) == nil {
			vFail("FillVerifyCircuitsG1 accepts the coordinates %v (case %d)", a, i)
		}
	}
}

func vTranscript5() []*big.Int {
	var r []*big.Int
	for i := 0; i < 104; i++ {
		if i < 44 || i >= 100 {
			if i%2 == 0 {
				x, y := vXY(vRandPt())
				r = append(r, x, y)
			}
			continue
		}
		r = append(r, vRandR())
	}
	return r
}
