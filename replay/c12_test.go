//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/crypto/bn256"
)

// C12: conversions.
func TestVerifC12(t *testing.T) {
	defer vDone(t)
	for n := 0; n < 70; n++ {
		for k := 0; k < 6; k++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*53 + k*91 + n)
			}
			if n > 0 {
				switch k {
				case 0:
					b[0] = 0
				case 1:
					b[0], b[n-1] = 0xff, 0
				case 2:
					for i := range b {
						b[i] = 0
					}
				}
			}
			for _, s := range []string{hex.EncodeToString(b), "0x" + hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b))} {
				vCase()
				got, err := hexToDecimalString(s)
				want := new(big.Int).SetBytes(b).String()
				if err != nil || got != want {
					vFail("hexToDecimalString(%q) = %q, %v; want %q", s, got, err, want)
				}
			}
		}
	}
	for _, c := range [][2]string{{"", "0"}, {"0x", "0"}, {"00", "0"}, {"0010", "16"}, {"0x0010", "16"}, {"10", "16"}, {"0b11", "2833"}, {"99", "153"}, {"0e10", "3600"}, {"aBcD", "43981"}} {
		vCase()
		if got, err := hexToDecimalString(c[0]); err != nil || got != c[1] {
			vFail("hexToDecimalString(%q) = %q, %v; want %q", c[0], got, err, c[1])
		}
	}
	for _, s := range []string{"0", "abc", "zz", "0xzz", "12 34", "0x1", "-1", "0x0x12", "12\n", "g0", "0X12", "+abc", "-00f", "+1", "-0x1f", "0x+a", "0x-1", "1_2f", "a__b", "0_12", "_123", "12_", " 1", "1 ", "\t12\t", "0o17", "\x0012", "0xé", "１２", "12 ", "00zz", "zz00", "0x0", "0x123", "0x12g4"} {
		vCase()
		if got, err := hexToDecimalString(s); err == nil {
			vFail("hexToDecimalString(%q) = %q, but the text is malformed", s, got)
		}
	}
	for i := 0; i < 200; i++ {
		vCase()
		k := vRandR()
		if i < 3 {
			k = vI(int64(i + 1))
		}
		p := new(bn256.G1).ScalarBaseMult(k)
		m := p.Marshal()
		x, y, err := extractAndConvert(p.String())
		if wx, wy := new(big.Int).SetBytes(m[:32]).String(), new(big.Int).SetBytes(m[32:]).String(); err != nil || x != wx || y != wy {
			vFail("extractAndConvert(%q) = %q, %q, %v; want %q, %q", p.String(), x, y, err, wx, wy)
		}
	}
	for _, c := range [][2]string{{"0001", "0002"}, {"00", "ff"}, {"ff", "00"}, {"0a0b0c", "01"}} {
		vCase()
		s := fmt.Sprintf("bn256.G1(%s, %s)", c[0], c[1])
		x, y, err := extractAndConvert(s)
		a, _ := new(big.Int).SetString(c[0], 16)
		b, _ := new(big.Int).SetString(c[1], 16)
		if err != nil || x != a.String() || y != b.String() {
			vFail("extractAndConvert(%q) = %q, %q, %v", s, x, y, err)
		}
	}
	for _, s := range []string{"", "bn256.G1()", "bn256.G1(12)", "bn256.G1(12,34)", "bn256.G1(zz, 12)", "bn256.G1(12, zz)", "bn256.G1(1, 12)", "bn256.G1(12, 1)", "bn256.G2(12, 34)", "(12, 34)", "bn256.G1(12, )", "bn256.G1(, 12)", "bn256.G1(12, 3)", "bn256.G1(123, 34)", "bn256.G1(-1, 12)", "bn256.G1(12, -1)", "bn256.G1(+123, 12)", "bn256.G1(12, 1_2)", "bn256.G1(1_2_, 12)", "bn256.G1(12 34)", "bn256.G1 12, 34", "bn256.G1(0xzz, 12)", "bn256.G1(0g, g0)"} {
		vCase()
		if x, y, err := extractAndConvert(s); err == nil {
			vFail("extractAndConvert(%q) = %q, %q, but the text is malformed", s, x, y)
		}
	}
	u := func(n uint64) *big.Int { return new(big.Int).SetUint64(n) }
	vals := []*big.Int{u(0), u(1), u(255), u(256), u(65535), u(65536), u(1<<32 - 1), u(1 << 32), u(1<<63 - 1), u(1 << 63), u(1<<64 - 1), u(0x0102030405060708)}
	for i := 0; i < 100; i++ {
		vals = append(vals, new(big.Int).Rsh(vRandR(), uint(190+i%64)))
	}
	for _, v := range vals {
		vCase()
		out := make([]*big.Int, 32)
		for i := range out {
			out[i] = new(big.Int)
		}
		in := new(big.Int).Set(v)
		err := vSafe(func() error { return toBytes(vR, []*big.Int{in}, out) })
		if err != nil {
			if v.IsUint64() {
				vFail("toBytes(%v): %v", v, err)
			}
			continue
		}
		s := new(big.Int)
		for i := 31; i >= 0; i-- {
			if out[i].Sign() < 0 || out[i].Cmp(vI(255)) > 0 {
				vFail("toBytes(%v)[%d] = %v", v, i, out[i])
			}
			s.Add(s.Lsh(s, 8), out[i])
		}
		if s.Cmp(v) != 0 || in.Cmp(v) != 0 {
			vFail("toBytes(%v) = %v", v, out)
		}
	}
}
