//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/crypto"
)

// C06: the instance hash against Keccak-256, with dishonest hint answers, and
// the Lagrange base multiplication.
func vInstHash(in []*big.Int) *big.Int {
	var b []byte
	for _, w := range in {
		b = append(b, w.FillBytes(make([]byte, 32))...)
	}
	return new(big.Int).SetBytes(crypto.Keccak256(b))
}

func TestVerifC06(t *testing.T) {
	defer vDone(t)
	vCase()
	agg, target, _ := vAggMarked()
	if _, pub, err := vInputs(agg); err == nil {
		for i, x := range target {
			if !pub[x] {
				vFail("word %d of the target instance is not a public input of AggregatorCircuit: a proof is not bound to it", i)
			}
		}
	}
	b := vBoundary()
	var ins [][]*big.Int
	ins = append(ins, []*big.Int{vDec("7059793422771910484"), vDec("2556686405730241944"), vDec("2133554817341762742"), vDec("8974371243071329347"),
		vDec("10573525131658455000365299935369648652552518565632155338390913030155084554858")})
	ins = append(ins, []*big.Int{b[0], b[0], b[0], b[0], b[0]}, []*big.Int{b[12], b[12], b[12], b[12], b[12]}, []*big.Int{b[1], b[5], b[8], b[11], b[10]})
	for i := 0; i < 4; i++ {
		ins = append(ins, []*big.Int{vRandR(), vRandR(), vRandR(), vRandR(), vRandR()})
	}
	ins = append(ins, []*big.Int{vRandR()}, []*big.Int{vRandR(), vI(7)})
	type hook = func(name string, call int, in, out []*big.Int) error
	run := func(in []*big.Int, h hook) (*big.Int, error) {
		var res frontend.Variable
		v := vVars(in...)
		err := vRun(func(api frontend.API) (e error) {
			res, e = VerifyInstanceHash(vWrap(api, h), v)
			return
		})
		if err != nil {
			return nil, err
		}
		return vBig(res), nil
	}
	// lie: the prover uses msg (any integers as byte words) and its hash
	rehash := func(out []*big.Int, msg []*big.Int, n int) {
		bs := make([]byte, len(msg))
		for i := range msg {
			bs[i] = byte(msg[i].Uint64())
		}
		h := crypto.Keccak256(bs)
		out[0] = new(big.Int).SetBytes(h)
		for i := 0; i < 32; i++ {
			out[1+i] = vI(int64(h[i]))
		}
		for i := range msg {
			out[33+i] = msg[i]
		}
	}
	type lie struct {
		name string
		h    hook
	}
	lies := func(in []*big.Int) []lie {
		n := len(in)
		var r []lie
		bytesOf := func(ws []*big.Int) []*big.Int {
			var m []*big.Int
			for _, w := range ws {
				for _, x := range w.FillBytes(make([]byte, 32)) {
					m = append(m, vI(int64(x)))
				}
			}
			return m
		}
		add := func(name string, f func(out []*big.Int)) {
			r = append(r, lie{name, func(hn string, call int, ins, out []*big.Int) error {
				if len(out) == 33+32*n {
					f(out)
				}
				return nil
			}})
		}
		for i := 0; i < n; i++ {
			for _, d := range []*big.Int{vI(1), new(big.Int).Neg(vI(1)), vR, new(big.Int).Lsh(vI(1), 254), new(big.Int).Lsh(vI(1), 255)} {
				ws := append([]*big.Int(nil), in...)
				ws[i] = new(big.Int).Add(in[i], d)
				if ws[i].Sign() < 0 || ws[i].BitLen() > 256 {
					continue
				}
				add(fmt.Sprintf("hashes input %d as %v", i, ws[i]), func(out []*big.Int) { rehash(out, bytesOf(ws), n) })
			}
			for _, k := range []int{0, 1, 15, 30, 31} {
				j := 32*i + k
				add(fmt.Sprintf("hashes another byte %d of input %d", k, i), func(out []*big.Int) {
					m := bytesOf(in)
					m[j] = vI(int64(byte(m[j].Uint64() + 1)))
					rehash(out, m, n)
				})
			}
			// another split into byte words of the same value
			add(fmt.Sprintf("splits input %d with a carry", i), func(out []*big.Int) {
				m := bytesOf(in)
				m[32*i+31] = new(big.Int).Add(m[32*i+31], vI(256))
				m[32*i+30] = vSubR(m[32*i+30], vI(1))
				rehash(out, m, n)
			})
			if i > 0 {
				add(fmt.Sprintf("exchanges inputs %d and %d", i-1, i), func(out []*big.Int) {
					ws := append([]*big.Int(nil), in...)
					ws[i], ws[i-1] = ws[i-1], ws[i]
					rehash(out, bytesOf(ws), n)
				})
			}
		}
		for _, k := range []int{0, 1, 16, 31} {
			add(fmt.Sprintf("claims another hash byte %d", k), func(out []*big.Int) { out[1+k] = vI(int64(byte(out[1+k].Uint64() + 1))) })
		}
		add("claims hash bytes with a carry", func(out []*big.Int) {
			out[32] = new(big.Int).Add(out[32], vI(256))
			out[31] = vSubR(out[31], vI(1))
		})
		add("claims another hash value", func(out []*big.Int) { out[0] = new(big.Int).Add(out[0], vI(1)) })
		add("claims a zero hash value", func(out []*big.Int) { out[0] = vI(0) })
		return r
	}
	var jobs []func()
	for k, in := range ins {
		want := vInstHash(in)
		jobs = append(jobs, func() {
			vCase()
			got, err := run(in, nil)
			if err != nil {
				vFail("VerifyInstanceHash(%v) is rejected: %v", in, err)
			} else if !vEqR(got, want) {
				vFail("VerifyInstanceHash(%v) = %v, want %v modulo r", in, got, want)
			}
		})
		if k%2 == 1 && k < 8 {
			continue
		}
		for _, l := range lies(in) {
			jobs = append(jobs, func() {
				vCase()
				if got, err := run(in, l.h); err == nil && !vEqR(got, want) {
					vFail("VerifyInstanceHash(%v) accepts the hash %v, not %v, when the prover %s", in, got, want, l.name)
				}
			})
		}
	}
	lx, ly := vDec("13534086339230182803823178260078315691269243572458753455438283544709107378988"), vDec("9053077977614827188269653632534212501565186534180282672519599630892718179094")
	for i := 0; i < 4; i++ {
		k := vRandR()
		if i == 0 {
			k = vI(5)
		}
		jobs = append(jobs, func() {
			f := func(api frontend.API) (func() string, error) {
				buf := make([]frontend.Variable, 43)
				for i := range buf {
					buf[i] = vI(int64(500 + i))
				}
				buf[2] = new(big.Int).Set(k)
				err := CalcVerifyCircuitLagrange(api, buf)
				return func() string {
					if !vIs(vBig(buf[0]), vBig(buf[1]), vSmul(k, vPt(lx, ly))) {
						return fmt.Sprintf("gives (%v, %v)", buf[0], buf[1])
					}
					for i := 2; i < 43; i++ {
						if w := vI(int64(500 + i)); i > 2 && vBig(buf[i]).Cmp(w) != 0 || i == 2 && vBig(buf[2]).Cmp(k) != 0 {
							return fmt.Sprintf("changes buf[%d]", i)
						}
					}
					return ""
				}, err
			}
			if err := vRun(func(api frontend.API) error { _, e := f(api); return e }); err != nil {
				vFail("CalcVerifyCircuitLagrange(%v) is rejected: %v", k, err)
			}
			vAttack(fmt.Sprintf("CalcVerifyCircuitLagrange with scalar %v", k), f)
		})
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
}
