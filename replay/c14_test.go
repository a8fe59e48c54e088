//go:build go1.22

//uses: kyc

package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

// C14: range gadget and the age condition.
func TestVerifC14(t *testing.T) {
	defer vDone(t)
	vals := vBoundary()
	for i := 0; i < 8; i++ {
		vals = append(vals, vRandR())
	}
	vals = append(vals, vI(17), vI(18), vI(19), vI(49), vI(50), vI(51), new(big.Int).Add(new(big.Int).Lsh(vI(1), 64), vI(1)))
	in := func(x, lo, hi *big.Int) bool { return lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0 }
	n := len(vals)
	vParallel(n*n*n, func(i int) {
		x, lo, hi := vals[i%n], vals[i/n%n], vals[i/n/n]
		vCase()
		err := vRun(func(api frontend.API) error {
			return VerifyRangeCheck(api, new(big.Int).Set(x), new(big.Int).Set(lo), new(big.Int).Set(hi))
		})
		if (err == nil) != in(x, lo, hi) {
			vFail("VerifyRangeCheck(%v, %v, %v): %v", x, lo, hi, err)
		}
		if i%97 == 0 {
			vAttack("VerifyRangeCheck", func(api frontend.API) (func() string, error) {
				err := VerifyRangeCheck(api, new(big.Int).Set(x), new(big.Int).Set(lo), new(big.Int).Set(hi))
				return func() string {
					if !in(x, lo, hi) {
						return "accepts " + x.String() + " in [" + lo.String() + ", " + hi.String() + "]"
					}
					return ""
				}, err
			})
		}
	})
	ages := []*big.Int{vI(0), vI(1), vI(17), vI(18), vI(19), vI(34), vI(50), vI(51), vI(52), vI(255), vI(256), new(big.Int).Sub(vR, vI(1)), new(big.Int).Lsh(vI(1), 200)}
	bounds := [][2]int64{{18, 50}, {0, 0}, {18, 18}, {50, 18}, {0, 255}}
	vParallel(len(ages)*len(bounds), func(i int) {
		vCase()
		k := vKycGood()
		k.age = ages[i%len(ages)]
		b := bounds[i/len(ages)]
		k.lo, k.hi = vI(b[0]), vI(b[1])
		err := k.run()
		if (err == nil) != in(k.age, k.lo, k.hi) {
			vFail("the KYC circuit with age %v and the range %v: %v", k.age, b, err)
		}
	})
}
