//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/ethereum/go-ethereum/crypto"
)

// C11: hash gadgets and byte packing.
func TestVerifC11(t *testing.T) {
	defer vDone(t)
	type gadget struct {
		name string
		f    func(api frontend.API, in, h []uints.U8) error
		hash func(b []byte) []byte
	}
	sh := func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
	kc := func(b []byte) []byte { return crypto.Keccak256(b) }
	gs := []gadget{{"VerifyKeccak256", VerifyKeccak256, kc}, {"VerifySha256", VerifySha256, sh},
		{"Keccak256Circuit", func(api frontend.API, in, h []uints.U8) error {
			return Keccak256Circuit{InputValue: in, HashValue: h}.Define(api)
		}, kc},
		{"Sha256Circuit", func(api frontend.API, in, h []uints.U8) error {
			return Sha256Circuit{InputValue: in, HashValue: h}.Define(api)
		}, sh}}
	msg := func(n int, seed byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*37) ^ seed
			if i == n-1 && seed%3 == 0 {
				b[i] = 0
			}
		}
		return b
	}
	var jobs []func()
	for _, g := range gs {
		for _, n := range []int{0, 1, 2, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 100, 119, 120, 127, 128, 134, 135, 136, 137, 160, 193, 271, 272, 273, 511, 512, 513, 1023, 1024, 1025, 1088, 1361, 2049, 4100} {
			run := func(m, h []byte) error {
				return vRun(func(api frontend.API) error { return g.f(api, uints.NewU8Array(m), uints.NewU8Array(h)) })
			}
			m := msg(n, byte(n))
			jobs = append(jobs, func() {
				vCase()
				h := g.hash(m)
				if err := run(m, h); err != nil {
					vFail("%s rejects the digest %x of %x: %v", g.name, h, m, err)
				}
				// digests of near messages
				var near [][]byte
				near = append(near, append(append([]byte(nil), m...), 0))
				if n > 0 {
					c := append([]byte(nil), m...)
					c[n-1] ^= 1
					d := append([]byte(nil), m...)
					d[0] ^= 0x80
					near = append(near, m[:n-1], m[1:], c, d)
					if n > 500 {
						near = near[1:3]
					}
				}
				for _, x := range near {
					if bytes.Equal(g.hash(x), h) {
						continue
					}
					if run(m, g.hash(x)) == nil {
						vFail("%s accepts the digest of %x as the digest of %x", g.name, x, m)
					}
				}
			})
			if n == 0 || n == 32 || n == 136 {
				for k := 0; k < 32; k++ {
					jobs = append(jobs, func() {
						for _, d := range []byte{1, 0x80, 0xff} {
							vCase()
							h := append([]byte(nil), g.hash(m)...)
							h[k] ^= d
							if run(m, h) == nil {
								vFail("%s accepts %x (byte %d wrong) as the digest of %x", g.name, h, k, m)
							}
						}
					})
				}
			}
		}
	}
	// a claimed digest with fewer than 32 bytes is no digest
	for _, g := range gs {
		for _, n := range []int{0, 5, 32, 136} {
			for _, k := range []int{0, 1, 16, 31} {
				jobs = append(jobs, func() {
					vCase()
					m := msg(n, byte(n+1))
					if vRun(func(api frontend.API) error {
						return g.f(api, uints.NewU8Array(m), uints.NewU8Array(g.hash(m)[:k]))
					}) == nil {
						vFail("%s accepts the first %d bytes of the digest of %x as its digest", g.name, k, m)
					}
				})
			}
		}
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
	for n := 1; n < 70; n++ {
		vCase()
		var in []frontend.Variable
		want := new(big.Int)
		for i := 0; i < n; i++ {
			b := int64((i*91 + n*13) % 256)
			if i == 0 && n%4 == 0 {
				b = 0
			}
			if n%5 == 1 {
				b = 255
			}
			in = append(in, vI(b))
			want.Add(want.Lsh(want, 8), vI(b))
		}
		var res *big.Int
		if err := vRun(func(api frontend.API) error { res = vBig(PackUInt8Variables(api, in...)); return nil }); err != nil {
			vFail("PackUInt8Variables(%v): %v", in, err)
		} else if !vEqR(res, want) {
			vFail("PackUInt8Variables(%v) = %v, want %v modulo r", in, res, want)
		}
	}
}
