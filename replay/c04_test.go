//go:build go1.22

package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

// C04: challenges against SHA-256 of the transcript words.
func vSqueeze(words []*big.Int) (full, c *big.Int) {
	var b []byte
	for _, w := range words {
		b = append(b, w.FillBytes(make([]byte, 32))...)
	}
	h := sha256.Sum256(append(b, 0))
	full = new(big.Int).SetBytes(h[:])
	return full, vModR(full)
}

func vChallenges(inst [2]*big.Int, tr []*big.Int) []*big.Int {
	cut := [][2]int{{0, 16}, {16, 24}, {24, 24}, {24, 38}, {38, 44}, {44, 100}, {100, 100}, {100, 102}}
	prev := vDec("8025805240938309707562879759498205008153592202559235423490485577859843831056")
	var r []*big.Int
	for i, k := range cut {
		words := []*big.Int{prev}
		if i == 0 {
			words = append(words, inst[0], inst[1])
		}
		words = append(words, tr[k[0]:k[1]]...)
		var c *big.Int
		prev, c = vSqueeze(words)
		r = append(r, c)
	}
	return r
}

// vTranscript: random commitments and evaluations
func vTranscript() []*big.Int {
	var r []*big.Int
	for i := 0; i < 104; i++ {
		if i < 44 || i >= 100 {
			if i%2 == 0 {
				x, y := vXY(vRandPt())
				r = append(r, x, y)
			}
			continue
		}
		r = append(r, vRandR())
	}
	return r
}

func TestVerifC04(t *testing.T) {
	defer vDone(t)
	var jobs []func()
	for _, n := range []int{1, 2, 3, 4, 7, 9, 15, 19, 32, 57, 59} {
		jobs = append(jobs, func() {
			vCase()
			abs := make([]frontend.Variable, 64)
			old := make([]*big.Int, 64)
			for i := range abs {
				old[i] = vRandR()
				if i%9 == 4 {
					old[i] = vI(int64(i % 3))
				}
				if i%5 == 2 { // a word need not be below r: coordinates go up to p, the state up to 2^256
					old[i] = new(big.Int).Sub(new(big.Int).Lsh(vI(1), 256), vI(int64(1+i)))
				}
				if i%7 == 1 {
					old[i] = new(big.Int).Add(vR, vI(int64(i)))
				}
				abs[i] = new(big.Int).Set(old[i])
			}
			full, want := vSqueeze(old[:n])
			var c frontend.Variable
			if err := vRun(func(api frontend.API) (e error) { c, e = SqueezeChallenge(api, abs, n); return }); err != nil {
				vFail("SqueezeChallenge of %d words fails: %v", n, err)
				return
			}
			if vBig(c).Cmp(want) != 0 {
				vFail("SqueezeChallenge of the %d words %v = %v, want %v", n, old[:n], c, want)
			}
			if vBig(abs[0]).Cmp(full) != 0 {
				vFail("SqueezeChallenge of %d words carries over %v, want %v", n, abs[0], full)
			}
			for i := 1; i < n; i++ {
				if vBig(abs[i]).Cmp(old[i]) != 0 {
					vFail("SqueezeChallenge of %d words changes word %d", n, i)
				}
			}
		})
	}
	run := func(inst [2]*big.Int, tr []*big.Int) ([]*big.Int, error) {
		buf := make([]frontend.Variable, 43)
		for i := range buf {
			buf[i] = big.NewInt(0)
		}
		buf[0], buf[1] = new(big.Int).Set(inst[0]), new(big.Int).Set(inst[1])
		v := vVars(tr...)
		if err := vRun(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf, v) }); err != nil {
			return nil, err
		}
		var r []*big.Int
		for i := 2; i < 10; i++ {
			r = append(r, vBig(buf[i]))
		}
		for i := 0; i < 2; i++ {
			if vBig(buf[i]).Cmp(inst[i]) != 0 {
				return r, fmt.Errorf("buf[%d] is changed", i)
			}
		}
		for i := range tr {
			if vBig(v[i]).Cmp(tr[i]) != 0 {
				return r, fmt.Errorf("transcript[%d] is changed", i)
			}
		}
		return r, nil
	}
	base := vTranscript()
	for k := 80; k < 116; k++ {
		jobs = append(jobs, func() {
			vCase()
			x, y := vXY(vRandPt())
			inst := [2]*big.Int{x, y}
			tr := append([]*big.Int(nil), base...)
			if k >= 104 {
				tr = vTranscript()
				for i := 44; i < 100; i++ {
					switch (i*7 + k) % 5 {
					case 0:
						tr[i] = vI(0)
					case 1:
						tr[i] = vI(int64(k))
					}
				}
			} else if k < 96 {
				tr = vTranscript()
			} else {
				i := (k - 96) * 5
				for j := i; j < i+5; j++ { // a few words change
					if j >= 44 && j < 100 {
						tr[j] = vRandR()
					} else if j%2 == 0 {
						tr[j], tr[j+1] = vXY(vRandPt())
					}
				}
			}
			want := vChallenges(inst, tr)
			got, err := run(inst, tr)
			if err != nil {
				vFail("GetChallengesShPlonkCircuit on transcript %v: %v", tr, err)
				return
			}
			for i := range want {
				if got[i].Cmp(want[i]) != 0 {
					vFail("challenge %d of instance %v, transcript %v is %v, want %v", i, inst, tr, got[i], want[i])
					return
				}
			}
		})
	}
	vParallel(len(jobs), func(i int) { jobs[i]() })
}
