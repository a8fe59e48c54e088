//go:build go1.22

//uses: real
//uses: kyc

package main

import (
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
)

// vSnap renders everything reachable from the values.
func vSnap(a ...any) string {
	s := ""
	for _, x := range a {
		switch v := x.(type) {
		case []frontend.Variable:
			s += "["
			for _, e := range v {
				s += vSnap(e) + " "
			}
			s += "]"
		case [2]frontend.Variable:
			s += vSnap(v[:])
		case *big.Int:
			s += v.String()
		case []uints.U8:
			for _, e := range v {
				s += fmt.Sprint(e.Val) + " "
			}
		case *sw_emulated.AffinePoint[emparams.BN254Fp]:
			s += vSnap(v.X.Limbs, v.Y.Limbs)
		case []sw_emulated.AffinePoint[emparams.BN254Fp]:
			for i := range v {
				s += vSnap(&v[i])
			}
		case []emulated.Element[emparams.BN254Fr]:
			for i := range v {
				s += vSnap(v[i].Limbs)
			}
		default:
			s += fmt.Sprintf("%v", x)
		}
		s += ";"
	}
	return s
}

// C18: what a gadget was given is afterwards as it was, and so are the
// package's constants; evaluating a circuit twice gives the same verdict.
func TestVerifC18(t *testing.T) {
	defer vDone(t)
	// the constants, by what they do
	consts := func() string {
		v := []frontend.Variable{nil, nil}
		if err := vRun(func(api frontend.API) error {
			v[0], v[1] = fr_neg(api, vI(1)), mod(api, new(big.Int).Set(vP))
			return nil
		}); err != nil {
			return err.Error()
		}
		return vSnap(v)
	}
	c0 := consts()
	var jobs []func()
	// check: the arguments before and after
	check := func(what string, f func(api frontend.API) error, args ...any) {
		jobs = append(jobs, func() {
			vCase()
			before := vSnap(args...)
			// variables are compared as objects too: storing another object is a change
			err := vRun(f)
			if after := vSnap(args...); after != before {
				vFail("%s changes what it was given: before %s, after %s (error %v)", what, before, after, err)
			}
			if c := consts(); c != c0 {
				vFail("%s changes a constant of the package: %s, was %s", what, c, c0)
			}
		})
	}
	ints := func(k ...*big.Int) []frontend.Variable { return vVars(k...) }
	large := new(big.Int).Add(new(big.Int).Lsh(vR, 1), vI(7))
	for _, k := range []*big.Int{vI(0), vI(5), vRandR(), new(big.Int).Sub(vR, vI(1)), vR, large} {
		a := ints(k, new(big.Int).Add(k, vI(3)), vRandR())
		q := ints(vI(6), vI(3), vI(2))
		check("mod", func(api frontend.API) error { mod(api, a[0]); return nil }, a)
		check("fr_add", func(api frontend.API) error { fr_add(api, a[0], a[1]); return nil }, a)
		check("fr_sub", func(api frontend.API) error { fr_sub(api, a[0], a[1]); return nil }, a)
		check("fr_neg", func(api frontend.API) error { fr_neg(api, a[0]); return nil }, a)
		check("fr_mul", func(api frontend.API) error { fr_mul(api, a[0], a[1]); return nil }, a)
		check("fr_mul_neg", func(api frontend.API) error { fr_mul_neg(api, a[0], a[1]); return nil }, a)
		check("fr_pow", func(api frontend.API) error { fr_pow(api, a[0], vI(5)); return nil }, a)
		check("fr_div", func(api frontend.API) error { fr_div(api, q[0], q[1], q[2]); return nil }, q)
		check("VerifyNotZero", func(api frontend.API) error { return VerifyNotZero(api, a[1]) }, a)
		check("VerifyRangeCheck", func(api frontend.API) error { return VerifyRangeCheck(api, a[0], a[1], a[2]) }, a)
	}
	for n := 0; n < 3; n++ {
		p, q := vRandPt(), vRandPt()
		k := vRandR()
		px, py := vXY(p)
		qx, qy := vXY(q)
		sx, sy := vXY(vAdd(p, q))
		mx, my := vXY(vSmul(k, p))
		a := ints(px, py, qx, qy, sx, sy, k, mx, my)
		check("VerifyBN254Add", func(api frontend.API) error {
			return VerifyBN254Add(api, [2]frontend.Variable{a[0], a[1]}, [2]frontend.Variable{a[2], a[3]}, [2]frontend.Variable{a[4], a[5]})
		}, a)
		check("VerifyBN254ScalarMul", func(api frontend.API) error {
			return VerifyBN254ScalarMul(api, [2]frontend.Variable{a[0], a[1]}, a[6], [2]frontend.Variable{a[7], a[8]})
		}, a)
		check("CalcVerifyBN256Add", func(api frontend.API) error { _, err := CalcVerifyBN256Add(api, a[0], a[1], a[2], a[3]); return err }, a)
		check("CalcVerifyBN256Msm", func(api frontend.API) error { _, err := CalcVerifyBN256Msm(api, a[0], a[1], a[6]); return err }, a)
		check("CalcVerifyBN256Add1", func(api frontend.API) error { _, err := CalcVerifyBN256Add1(api, a[0], a[1], a[2], a[3]); return err }, a)
		check("CalcVerifyBN256Msm1", func(api frontend.API) error { _, err := CalcVerifyBN256Msm1(api, a[0], a[1], a[6]); return err }, a)
		check("VerifyCheckOnCurve", func(api frontend.API) error { return VerifyCheckOnCurve(api, a[0], a[1]) }, a)
		check("VerifyCheckOnCurveVar", func(api frontend.API) error { return VerifyCheckOnCurveVar(api, a[0], a[1]) }, a)
		check("FillVerifyCircuitsG1", func(api frontend.API) error {
			(&BN256PairingCircuit{}).FillVerifyCircuitsG1(a[0], a[1], a[2], a[3])
			return nil
		}, a)
		// the accumulating gadgets: everything but the accumulator
		b := append(ints(vRandR()), ints(px, py, qx, qy, k, vRandR())...)
		check("ecc_mul_add (outside the accumulator)", func(api frontend.API) error { return ecc_mul_add(api, b, 1) }, b[:1], b[5:], b[1].(*big.Int), b[2].(*big.Int), b[3].(*big.Int), b[4].(*big.Int))
		d := append(ints(vRandR()), ints(px, py, k, vRandR())...)
		check("ecc_mul (outside the accumulator)", func(api frontend.API) error { return ecc_mul(api, d, 1) }, d[:1], d[3:], d[1].(*big.Int), d[2].(*big.Int))
		l := ints(vRandR(), vRandR(), k, vRandR())
		check("CalcVerifyCircuitLagrange", func(api frontend.API) error { return CalcVerifyCircuitLagrange(api, l) }, l[2:], l[0].(*big.Int), l[1].(*big.Int))
		S := []emulated.Element[emparams.BN254Fr]{emulated.ValueOf[emparams.BN254Fr](k)}
		PM := vEmu(mx, my)
		P1, P2, P3, P4, K := p, q, vAdd(p, q), vSmul(k, p), new(big.Int).Set(k)
		check("VerifyBN256Add", func(api frontend.API) error { return VerifyBN256Add(api, &P1, &P2, &P3) }, &P1, &P2, &P3)
		check("VerifyBN256Msm", func(api frontend.API) error { return VerifyBN256Msm(api, &P1, K, &P4) }, &P1, K, &P4)
		ps := []sw_emulated.AffinePoint[emparams.BN254Fp]{*vEmu(px, py)}
		check("VerifyMultiScalarMul", func(api frontend.API) error { return VerifyMultiScalarMul(api, ps, S, *PM) }, ps, S, PM)
		tw := make([]frontend.Variable, 64)
		for i := range tw {
			tw[i] = vRandR()
		}
		check("SqueezeChallenge (words after the first)", func(api frontend.API) error { _, err := SqueezeChallenge(api, tw, 9); return err }, tw[1:9], tw[0].(*big.Int))
	}
	in := ints(vRandR(), vRandR(), vI(0), vI(1), vRandR())
	check("VerifyInstanceHash", func(api frontend.API) error { _, err := VerifyInstanceHash(api, in); return err }, in)
	msg := uints.NewU8Array([]byte("the quick brown fox"))
	dig := uints.NewU8Array(make([]byte, 32))
	check("VerifyKeccak256", func(api frontend.API) error { return VerifyKeccak256(api, msg, dig) }, msg, dig)
	check("VerifySha256", func(api frontend.API) error { return VerifySha256(api, msg, dig) }, msg, dig)
	by := ints(vI(1), vI(2), vI(255), vI(0), vI(7))
	check("PackUInt8Variables", func(api frontend.API) error { PackUInt8Variables(api, by...); return nil }, by)
	// the hints
	for _, h := range []struct {
		n string
		f func(*big.Int, []*big.Int, []*big.Int) error
		m int
		o int
	}{{"MsmHint", MsmHint, 3, 2}, {"AddHint", AddHint, 4, 2}, {"modHint", modHint, 1, 2}, {"Keccak256Hint", Keccak256Hint, 5, 193}} {
		for n := 0; n < 4; n++ {
			jobs = append(jobs, func() {
				vCase()
				px, py := vXY(vRandPt())
				qx, qy := vXY(vRandPt())
				in := []*big.Int{px, py, qx, qy, vRandR()}[:h.m]
				if n == 0 && h.m == 4 {
					in[2], in[3] = px, py
				}
				if n == 1 && h.m == 1 {
					in[0] = new(big.Int).Add(vR, vI(9))
				}
				out := make([]*big.Int, h.o)
				for i := range out {
					out[i] = new(big.Int)
				}
				var b []frontend.Variable
				for _, x := range in {
					b = append(b, x)
				}
				m := new(big.Int).Set(vR)
				before := vSnap(b, m)
				_ = h.f(m, in, out)
				for i, x := range in {
					if x != b[i] {
						vFail("%s replaces its input %d", h.n, i)
					}
				}
				if after := vSnap(b, m); after != before {
					vFail("%s changes its inputs: before %s, after %s", h.n, before, after)
				}
				if c := consts(); c != c0 {
					vFail("%s changes a constant of the package: %s, was %s", h.n, c, c0)
				}
			})
		}
	}
	// the aggregation circuit: rejected and accepted inputs, values at or above r
	agg := func(what string, a *vAgg, wantOK bool) func() {
		return func() {
			vCase()
			c := &AggregatorCircuit{Proof: vVars(a.proof...), VerifyInst: vVars(a.inst...), Aux: vVars(a.aux...), TargetInst: vVars(a.target...)}
			before := vSnap(c.Proof, c.VerifyInst, c.Aux, c.TargetInst)
			var all []frontend.Variable
			for _, l := range [][]frontend.Variable{c.Proof, c.VerifyInst, c.Aux, c.TargetInst} {
				all = append(all, l...)
			}
			objs := append([]frontend.Variable(nil), all...)
			err := vRun(c.Define)
			if after := vSnap(c.Proof, c.VerifyInst, c.Aux, c.TargetInst); after != before {
				vFail("AggregatorCircuit.Define (%s) changes its inputs: before %s, after %s (error %v)", what, before, after, err)
			}
			i := 0
			for _, l := range [][]frontend.Variable{c.Proof, c.VerifyInst, c.Aux, c.TargetInst} {
				for _, x := range l {
					if x != objs[i] {
						vFail("AggregatorCircuit.Define (%s) replaces its input %d by another object", what, i)
						return
					}
					i++
				}
			}
			if cc := consts(); cc != c0 {
				vFail("AggregatorCircuit.Define (%s) changes a constant of the package: %s, was %s", what, cc, c0)
			}
			if wantOK && err != nil {
				vFail("the valid aggregation proof is rejected: %v", err)
			}
		}
	}
	// the other circuits: whatever their exported fields reach
	deep := func(what string, c frontend.Circuit) {
		jobs = append(jobs, func() {
			vCase()
			before := vDeep(reflect.ValueOf(c))
			err := vRun(c.Define)
			if after := vDeep(reflect.ValueOf(c)); after != before {
				vFail("%s changes its inputs: before %s, after %s (error %v)", what, before, after, err)
			}
			if cc := consts(); cc != c0 {
				vFail("%s changes a constant of the package: %s, was %s", what, cc, c0)
			}
		})
	}
	for i, country := range []int64{100, 300, 500, 700} {
		k := vKycGood()
		k.country = vI(country)
		if i == 2 {
			k.countries = []*big.Int{vI(500), vI(400), vI(300), vI(200), vI(100), new(big.Int).Add(vR, vI(5)), vI(0), vI(0)}
		}
		if i == 1 {
			k.age = vI(99)
		}
		deep("the KYC circuit", k.circuit())
	}
	{
		p, q, k := vRandPt(), vRandPt(), vRandR()
		px, py := vXY(p)
		qx, qy := vXY(q)
		sx, sy := vXY(vAdd(p, q))
		mx, my := vXY(vSmul(k, p))
		s, m := vAdd(p, q), vSmul(k, p)
		deep("BN254Add", &BN254Add{Point1: [2]frontend.Variable{px, py}, Point2: [2]frontend.Variable{qx, qy}, ExpectedRes: [2]frontend.Variable{sx, sy}})
		deep("BN254ScalarMul", &BN254ScalarMul{Point: [2]frontend.Variable{px, py}, Scalar: k, Res: [2]frontend.Variable{mx, my}})
		deep("BN256MsmCircuit", &BN256MsmCircuit{G1Point: &p, Scalar: k, Res: &m})
		deep("BN256AddCircuit", &BN256AddCircuit{G10Point: &p, G11Point: &q, Res: &s})
		deep("CheckOnCurveCircuit", CheckOnCurveCircuit{X: px, Y: py})
		c := &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{Res: *vEmu(mx, my)}
		for _, t := range []struct{ k, x, y *big.Int }{{k, px, py}, {vI(0), qx, qy}, {vI(3), sx, sy}} {
			c.Points, c.Scalars = append(c.Points, *vEmu(t.x, t.y)), append(c.Scalars, emulated.ValueOf[emparams.BN254Fr](t.k))
		}
		deep("MultiScalarMul", c)
		h := uints.NewU8Array(make([]byte, 32))
		deep("Keccak256Circuit", Keccak256Circuit{InputValue: uints.NewU8Array([]byte("keccak of this text")), HashValue: h})
		deep("Sha256Circuit", Sha256Circuit{InputValue: uints.NewU8Array([]byte("sha of this text")), HashValue: h})
	}
	jobs = append([]func(){agg("a valid proof", vReal(), true)}, jobs...)
	bigT := vReal()
	for i := range bigT.target {
		bigT.target[i] = new(big.Int).Add(vR, vI(int64(i)))
	}
	jobs = append([]func(){agg("instance words above r", bigT, false)}, jobs...)
	bigP := vReal()
	for i := 44; i < 100; i++ {
		bigP.proof[i] = new(big.Int).Add(bigP.proof[i], vR)
	}
	jobs = append([]func(){agg("evaluations above r", bigP, false)}, jobs...)
	vParallel(len(jobs), func(i int) { jobs[i]() })
}

// vDeep renders what the exported fields of a value reach.
func vDeep(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if b, is := v.Interface().(*big.Int); is {
			return b.String()
		}
		return vDeep(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				s += v.Type().Field(i).Name + ":" + vDeep(v.Field(i)) + " "
			}
		}
		return s + "}"
	case reflect.Slice, reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += vDeep(v.Index(i)) + " "
		}
		return s + "]"
	}
	return fmt.Sprint(v.Interface())
}

func vEmu(x, y *big.Int) *sw_emulated.AffinePoint[emparams.BN254Fp] {
	return &sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](x), Y: emulated.ValueOf[emparams.BN254Fp](y)}
}

var _ = sw_bn254.NewG1Affine
