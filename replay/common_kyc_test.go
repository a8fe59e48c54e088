//go:build go1.22

package main

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/signature/ecdsa"
)

var (
	vKycR = vDec("45536044045135930417610581277973574046122438970391757925449844580498097416238")
	vKycS = vDec("77405625560525123464152303145240770328705524946250305291099118722847750339975")
	vKycH = vDec("65836751601596300032969389553597263219621359970931417026813124302429596772205")
	vSecN = emulated.Secp256k1Fr{}.Modulus()
)

func vSignature(r, s *big.Int) ecdsa.Signature[emulated.Secp256k1Fr] {
	return ecdsa.Signature[emulated.Secp256k1Fr]{R: emulated.ValueOf[emulated.Secp256k1Fr](r), S: emulated.ValueOf[emulated.Secp256k1Fr](s)}
}

type vKyc struct {
	r, s, h           *big.Int
	age, lo, hi       *big.Int
	country           *big.Int
	countries         []*big.Int
	level, time, l, t int64
}

func vKycGood() vKyc {
	return vKyc{vKycR, vKycS, vKycH, vI(35), vI(18), vI(50), vI(300), []*big.Int{vI(100), vI(200), vI(300), vI(400), vI(500)}, 3, 200, 3, 300}
}

// circuit is the KYC circuit on the record.
func (k vKyc) circuit() *Circuit {
	c := &Circuit{
		Signature: ecdsa.Signature[emulated.Secp256k1Fr]{R: emulated.ValueOf[emulated.Secp256k1Fr](k.r), S: emulated.ValueOf[emulated.Secp256k1Fr](k.s)},
		KycHash:   emulated.ValueOf[emulated.Secp256k1Fr](k.h),
	}
	c.ConditionHash.Age = [2]frontend.Variable{new(big.Int).Set(k.lo), new(big.Int).Set(k.hi)}
	c.Kyc.Age = new(big.Int).Set(k.age)
	c.ConditionHash.Country = vVars(k.countries...)
	c.Kyc.Country = new(big.Int).Set(k.country)
	c.ConditionHash.Level = []frontend.Variable{vI(k.l)}
	c.Kyc.Level = vI(k.level)
	c.ConditionHash.Time = []frontend.Variable{vI(k.t)}
	c.Kyc.Time = vI(k.time)
	return c
}

// run evaluates it.
func (k vKyc) run() error {
	return vRun(func(api frontend.API) error { return k.circuit().Define(api) })
}
