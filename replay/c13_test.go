//go:build go1.22

//uses: kyc

package main

import (
	"crypto/rand"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/secp256k1/ecdsa"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

// C13: the KYC circuit with wrong signatures, hashes, keys and countries.
func TestVerifC13(t *testing.T) {
	defer vDone(t)
	var jobs []func()
	accept := func(what string, k vKyc) {
		jobs = append(jobs, func() {
			vCase()
			if err := k.run(); err != nil {
				vFail("the KYC circuit rejects %s: %v", what, err)
			}
		})
	}
	reject := func(what string, k vKyc) {
		jobs = append(jobs, func() {
			vCase()
			if k.run() == nil {
				vFail("the KYC circuit accepts %s", what)
			}
		})
	}
	vCase()
	if _, pub, err := vInputs(&Circuit{
		Signature:     vSignature(vKycR, vKycS),
		KycHash:       emulated.ValueOf[emulated.Secp256k1Fr](vKycH),
		Kyc:           KycType{Age: 35, Country: 1103, Level: 3, Time: 200},
		ConditionHash: Conditions{Age: [2]frontend.Variable{1101, 1102}, Country: []frontend.Variable{1103, 1104}, Level: []frontend.Variable{3}, Time: []frontend.Variable{300}},
	}); err == nil {
		for _, x := range []string{"1101", "1102", "1103", "1104"} {
			if !pub[x] {
				vFail("a bound or country of the condition is not a public input of the KYC circuit: a proof is not bound to it")
			}
		}
	}
	g := vKycGood()
	// another key (a dishonest issuer)
	priv, err := ecdsa.GenerateKey(rand.Reader)
	if err == nil {
		sig, err := priv.Sign(vKycH.FillBytes(make([]byte, 32)), nil)
		if err == nil {
			b := g
			b.r, b.s = new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
			reject("a signature under another key", b)
		}
	}
	lists := [][]int64{{300}, {300, 1}, {1, 300}, {1, 300, 2}, {300, 300}, {1, 2, 3, 300}, {300, 1, 2, 3, 4, 5}, {0, 300}, {300, 0}, {299, 300, 301}}
	big_ := func(l []int64) []*big.Int {
		var r []*big.Int
		for _, x := range l {
			r = append(r, vI(x))
		}
		return r
	}
	for i, l := range lists {
		b := g
		b.countries = big_(l)
		accept("country 300 with the list "+str(l), b)
		// the same list without it
		var o []int64
		for _, x := range l {
			if x != 300 {
				o = append(o, x)
			}
		}
		b.countries = big_(o)
		reject("country 300 with the list "+str(o), b)
		b = g
		b.countries = big_(l)
		b.country = vI(int64(1000 + i))
		reject("country "+b.country.String()+" with the list "+str(l), b)
	}
	for _, c := range []int64{0, 1, 99, 101, 250, 301, 600, 700, 150, 1500} {
		b := g
		b.country = vI(c)
		reject("country "+b.country.String()+" with the list 100..500", b)
	}
	for _, c := range []int64{100, 200, 400, 500} {
		b := g
		b.country = vI(c)
		accept("country "+b.country.String()+" with the list 100..500", b)
	}
	for _, n := range []int{31, 64, 65, 100, 129, 257} {
		var l []*big.Int
		for i := 0; i < n; i++ {
			l = append(l, vI(int64(1000+7*i)))
		}
		for _, at := range []int{0, n - 1} {
			b := g
			b.countries, b.country = l, vI(int64(1000+7*at))
			accept("a country at position "+vI(int64(at)).String()+" of a long list", b)
		}
		for _, x := range []int64{0, 1, 999, 1003} {
			b := g
			b.countries, b.country = l, vI(x)
			reject("country "+vI(x).String()+" with a list of "+vI(int64(n)).String()+" others", b)
		}
	}
	b := g
	b.country = vI(0)
	b.countries = big_([]int64{0, 0})
	accept("country 0 with the list 0, 0", b)
	b.countries = big_([]int64{5})
	reject("country 0 with the list 5", b)
	m1 := new(big.Int).Sub(vR, vI(1))
	b = g
	b.country, b.countries = m1, []*big.Int{vI(1), m1}
	accept("country r-1 in its list", b)
	one := vI(1)
	sigs := [][3]*big.Int{{new(big.Int).Add(vKycR, one), vKycS, vKycH}, {vKycR, new(big.Int).Add(vKycS, one), vKycH}, {vKycR, vKycS, new(big.Int).Add(vKycH, one)},
		{vKycS, vKycR, vKycH}, {vKycR, vKycS, vI(0)}, {vKycR, vKycS, vI(1)}, {vKycR, one, vKycH}, {one, vKycS, vKycH},
		{vKycR, vKycS, new(big.Int).Sub(vKycH, one)}, {vKycR, vKycH, vKycS}}
	for _, s := range sigs {
		b := g
		b.r, b.s, b.h = s[0], s[1], s[2]
		reject("the signature ("+s[0].String()+", "+s[1].String()+") of "+s[2].String(), b)
	}
	b = g
	b.s = new(big.Int).Sub(vSecN, vKycS)
	accept("the signature (r, n-s)", b)
	// the record's other entries do not matter for acceptance here
	accept("the honest record", g)
	vParallel(len(jobs), func(i int) { jobs[i]() })
}

func str(l []int64) string {
	s := ""
	for _, x := range l {
		s += vI(x).String() + " "
	}
	return s
}
