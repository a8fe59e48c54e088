//go:build go1.22

//uses: real
//uses: kyc

package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/ethereum/go-ethereum/crypto"
)

// C21: inputs for which the relation holds, boundary values included, are
// accepted by every gadget.
func TestVerifC21(t *testing.T) {
	defer vDone(t)
	var jobs []func()
	ok := func(what string, f func(api frontend.API) error) {
		jobs = append(jobs, func() {
			vCase()
			if err := vRun(f); err != nil {
				vFail("%s is rejected: %v", what, err)
			}
		})
	}
	type V = frontend.Variable
	type API = frontend.API
	c := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
	agg := vReal()
	ok("the valid aggregation proof", func(api API) error {
		return (&AggregatorCircuit{Proof: vVars(agg.proof...), VerifyInst: vVars(agg.inst...), Aux: vVars(agg.aux...), TargetInst: vVars(agg.target...)}).Define(api)
	})
	k := vKycGood()
	for _, age := range []int64{18, 19, 35, 49, 50} {
		for _, n := range []*big.Int{vI(100), vI(300), vI(500)} {
			g := k
			g.age, g.country = vI(age), n
			jobs = append(jobs, func() {
				vCase()
				if err := g.run(); err != nil {
					vFail("the KYC circuit rejects age %v in [18, 50], country %v: %v", g.age, g.country, err)
				}
			})
		}
	}
	m1 := new(big.Int).Sub(vR, vI(1))
	vals := append(vBoundary(), vI(2), new(big.Int).Lsh(vI(1), 253), vRandR(), vRandR(), vRandR())
	for _, a := range vals {
		ok(fmt.Sprintf("mod(%v)", a), func(api API) error { vSame(api, mod(api, c(a)), a); return nil })
	}
	for _, a := range vals {
		ok(fmt.Sprintf("fr_neg(%v)", a), func(api API) error { vSame(api, fr_neg(api, c(a)), vSubR(vI(0), a)); return nil })
		if a.Sign() != 0 {
			ok(fmt.Sprintf("VerifyNotZero(%v)", a), func(api API) error { return VerifyNotZero(api, c(a)) })
		}
		for _, e := range []int64{0, 1, 2, 3, 17, 1 << 20} {
			ok(fmt.Sprintf("fr_pow(%v, %v)", a, e), func(api API) error {
				vSame(api, fr_pow(api, c(a), vI(e)), new(big.Int).Exp(a, vI(e), vR))
				return nil
			})
		}
		for _, b := range vals {
			ok(fmt.Sprintf("fr_add(%v, %v)", a, b), func(api API) error { vSame(api, fr_add(api, c(a), c(b)), vAddR(a, b)); return nil })
			ok(fmt.Sprintf("fr_sub(%v, %v)", a, b), func(api API) error { vSame(api, fr_sub(api, c(a), c(b)), vSubR(a, b)); return nil })
			ok(fmt.Sprintf("fr_mul(%v, %v)", a, b), func(api API) error { vSame(api, fr_mul(api, c(a), c(b)), vMulR(a, b)); return nil })
			ok(fmt.Sprintf("fr_mul_neg(%v, %v)", a, b), func(api API) error {
				vSame(api, fr_mul_neg(api, c(a), c(b)), vSubR(vI(0), vMulR(a, b)))
				return nil
			})
			if b.Sign() != 0 {
				q := vMulR(a, vInvR(b))
				ok(fmt.Sprintf("fr_div(%v, %v, %v)", a, b, q), func(api API) error { vSame(api, fr_div(api, c(a), c(b), c(q)), q); return nil })
			}
			if a.Cmp(b) <= 0 {
				for _, x := range []*big.Int{a, b, new(big.Int).Rsh(new(big.Int).Add(a, b), 1)} {
					ok(fmt.Sprintf("VerifyRangeCheck(%v, %v, %v)", x, a, b), func(api API) error { return VerifyRangeCheck(api, c(x), c(a), c(b)) })
				}
			}
		}
		in := []*big.Int{a, vRandR(), vI(0), m1, a}
		ok(fmt.Sprintf("VerifyInstanceHash(%v)", in), func(api API) error {
			h, err := VerifyInstanceHash(api, vVars(in...))
			if err != nil {
				return err
			}
			var b []byte
			for _, x := range in {
				b = append(b, x.FillBytes(make([]byte, 32))...)
			}
			vSame(api, h, vModR(new(big.Int).SetBytes(crypto.Keccak256(b))))
			return nil
		})
	}
	for _, n := range []int{0, 1, 3, 55, 56, 63, 64, 65, 119, 135, 136, 137, 200} {
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = byte(vRandR().Uint64())
		}
		ok(fmt.Sprintf("VerifyKeccak256 of %d bytes", n), func(api API) error {
			return VerifyKeccak256(api, uints.NewU8Array(msg), uints.NewU8Array(crypto.Keccak256(msg)))
		})
		ok(fmt.Sprintf("VerifySha256 of %d bytes", n), func(api API) error {
			return VerifySha256(api, uints.NewU8Array(msg), uints.NewU8Array(vSha(msg)))
		})
	}
	for _, n := range []int{1, 2, 6, 64} {
		tw := make([]*big.Int, n+1)
		for i := range tw {
			tw[i] = vRandR()
		}
		tw[0] = new(big.Int).Sub(new(big.Int).Lsh(vI(1), 256), vI(1))
		ok(fmt.Sprintf("SqueezeChallenge of %d words", n), func(api API) error { _, err := SqueezeChallenge(api, vVars(tw...), n); return err })
	}
	// curve points whose coordinates are representable
	inf := bn254.G1Affine{}
	pt := func() bn254.G1Affine {
		for {
			p := vRandPt()
			if x, y := vXY(p); x.Cmp(vR) < 0 && y.Cmp(vR) < 0 {
				return p
			}
		}
	}
	pr := func(p bn254.G1Affine) [2]V { x, y := vXY(p); return [2]V{x, y} }
	emu := func(p bn254.G1Affine) sw_emulated.AffinePoint[emparams.BN254Fp] {
		x, y := vXY(p)
		return sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](x), Y: emulated.ValueOf[emparams.BN254Fp](y)}
	}
	for i := 0; i < 8; i++ {
		p, q := pt(), pt()
		switch i {
		case 0:
			q = p
		case 1:
			q = vNeg(p)
		case 2:
			q = inf
		case 3:
			p = inf
		case 4:
			p = vG
		}
		s := vAdd(p, q)
		ok(fmt.Sprintf("VerifyCheckOnCurve(%v)", p), func(api API) error { x := pr(p); return VerifyCheckOnCurve(api, x[0], x[1]) })
		ok(fmt.Sprintf("VerifyCheckOnCurveVar(%v)", p), func(api API) error { x := pr(p); return VerifyCheckOnCurveVar(api, x[0], x[1]) })
		ok(fmt.Sprintf("VerifyBN254Add(%v, %v)", p, q), func(api API) error { return VerifyBN254Add(api, pr(p), pr(q), pr(s)) })
		ok(fmt.Sprintf("CalcVerifyBN256Add(%v, %v)", p, q), func(api API) error {
			_, err := CalcVerifyBN256Add(api, pr(p)[0], pr(p)[1], pr(q)[0], pr(q)[1])
			return err
		})
		ok(fmt.Sprintf("CalcVerifyBN256Add1(%v, %v)", p, q), func(api API) error {
			_, err := CalcVerifyBN256Add1(api, pr(p)[0], pr(p)[1], pr(q)[0], pr(q)[1])
			return err
		})
		ok(fmt.Sprintf("VerifyBN256Add(%v, %v)", p, q), func(api API) error {
			p, q, s := p, q, s
			return VerifyBN256Add(api, &p, &q, &s)
		})
		for j := 0; j < 3; j++ {
			e := vRandR()
			switch j {
			case 0:
				e = vI(2)
			case 1:
				e = new(big.Int).Lsh(vI(1), uint(100+i))
			}
			m := vSmul(e, p)
			ok(fmt.Sprintf("VerifyBN256Msm(%v, %v)", p, e), func(api API) error {
				p, m := p, m
				return VerifyBN256Msm(api, &p, c(e), &m)
			})
			if p.IsInfinity() || i > 6 && !vThorough {
				continue
			}
			ok(fmt.Sprintf("VerifyBN254ScalarMul(%v, %v)", p, e), func(api API) error { return VerifyBN254ScalarMul(api, pr(p), c(e), pr(m)) })
			ok(fmt.Sprintf("CalcVerifyBN256Msm(%v, %v)", p, e), func(api API) error {
				_, err := CalcVerifyBN256Msm(api, pr(p)[0], pr(p)[1], c(e))
				return err
			})
			ok(fmt.Sprintf("CalcVerifyBN256Msm1(%v, %v)", p, e), func(api API) error {
				_, err := CalcVerifyBN256Msm1(api, pr(p)[0], pr(p)[1], c(e))
				return err
			})
			ok(fmt.Sprintf("ecc_mul(%v, %v)", p, e), func(api API) error { x := pr(p); return ecc_mul(api, []V{x[0], x[1], c(e)}, 0) })
			ok(fmt.Sprintf("ecc_mul_add(%v + %v * %v)", q, e, p), func(api API) error {
				x, y := pr(p), pr(q)
				return ecc_mul_add(api, []V{y[0], y[1], x[0], x[1], c(e)}, 0)
			})
			ok(fmt.Sprintf("CalcVerifyCircuitLagrange(%v)", e), func(api API) error { return CalcVerifyCircuitLagrange(api, []V{vI(0), vI(0), c(e)}) })
		}
	}
	for n := 1; n <= 4; n++ {
		var ps []sw_emulated.AffinePoint[emparams.BN254Fp]
		var ks []emulated.Element[emparams.BN254Fr]
		sum := inf
		for i := 0; i < n; i++ {
			p, e := vRandPt(), vRandR()
			ps, ks = append(ps, emu(p)), append(ks, emulated.ValueOf[emparams.BN254Fr](e))
			sum = vAdd(sum, vSmul(e, p))
		}
		ok(fmt.Sprintf("VerifyMultiScalarMul of %d points", n), func(api API) error { return VerifyMultiScalarMul(api, ps, ks, emu(sum)) })
	}
	_, _, _, g2 := bn254.Generators()
	for _, e := range []*big.Int{vI(1), m1, vRandR()} {
		ok(fmt.Sprintf("the pairing of %v times the generators with its inverse", e), func(api API) error {
			p := vMulG(e)
			P, Q := sw_bn254.NewG1Affine(p), sw_bn254.NewG1Affine(vNeg(p))
			H, K := sw_bn254.NewG2Affine(g2), sw_bn254.NewG2Affine(g2)
			return VerifyBN256Pairing(api, []*sw_bn254.G1Affine{&P, &Q}, []*sw_bn254.G2Affine{&H, &K})
		})
		ok("FillVerifyCircuitsG1 and G2", func(api API) error {
			x := pr(pt())
			b := &BN256PairingCircuit{}
			b.FillVerifyCircuitsG1(x[0], x[1], x[0], x[1])
			b.FillVerifyCircuitsG2()
			return nil
		})
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
}

// vSame: the value computed for an honest input is the expected one.
func vSame(api frontend.API, got frontend.Variable, want *big.Int) {
	if !vEqR(vBig(got), want) {
		panic(fmt.Sprintf("the result is %v, not %v", vBig(got), want))
	}
}
