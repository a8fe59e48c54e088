//go:build go1.22

//uses: halo2

package main

import (
	"math/big"
	"sync"
	"testing"

	"github.com/consensys/gnark/frontend"
)

// C02: the accumulators of random proofs, and of a prover who answers one of
// the curve hints with another point.
func TestVerifC02(t *testing.T) {
	defer vDone(t)
	vHalo2(false)
	if vOver() {
		return
	}
	p := vRandRef()
	aux := p.honestAux()
	if _, err := p.verify(aux, true, 2); err != nil {
		vFail("the verifier rejects honest auxiliary values: %v", err)
		return
	}
	type step = func(frontend.API, []frontend.Variable, []frontend.Variable, [43]frontend.Variable) ([43]frontend.Variable, error)
	run := func(f step, in [43]*big.Int, hook func(name string, call int, in, out []*big.Int) error) (out [43]*big.Int, err error) {
		err = vRun(func(api frontend.API) error {
			var b [43]frontend.Variable
			for i := range b {
				b[i] = new(big.Int).Set(in[i])
			}
			b, e := f(vWrap(api, hook), vVars(p.t...), vVars(aux...), b)
			if e == nil {
				for i := range b {
					out[i] = vBig(b[i])
				}
			}
			return e
		})
		return out, err
	}
	type job struct {
		step int
		call int
	}
	var jobs []job
	var ins, outs [3][43]*big.Int
	steps := [3]step{VerifyProof1, VerifyProof2, VerifyProof3}
	b0 := p.buf()
	for i := range b0 {
		ins[0][i] = vBig(b0[i])
	}
	for s, f := range steps {
		var mu sync.Mutex
		var curve []int
		o, err := run(f, ins[s], func(name string, call int, in, out []*big.Int) error {
			mu.Lock()
			defer mu.Unlock()
			if len(out) == 2 {
				if q := vPt(out[0], out[1]); !q.IsInfinity() && q.IsOnCurve() {
					curve = append(curve, call)
				}
			}
			return nil
		})
		if err != nil {
			vFail("step %d rejects an honest proof: %v", s+1, err)
			return
		}
		outs[s] = o
		if s < 2 {
			ins[s+1] = o
		}
		for _, c := range curve {
			jobs = append(jobs, job{s, c})
		}
	}
	// the last steps first: what they do is not bound by anything later
	for i, j := 0, len(jobs)-1; i < j; i, j = i+1, j-1 {
		jobs[i], jobs[j] = jobs[j], jobs[i]
	}
	vParallel(len(jobs), func(k int) {
		vCase()
		j := jobs[k]
		x, y := vXY(vRandPt())
		where := ""
		o, err := run(steps[j.step], ins[j.step], func(name string, call int, in, out []*big.Int) error {
			if call == j.call {
				where = name
				out[0].Set(x)
				out[1].Set(y)
			}
			return nil
		})
		if err != nil {
			return
		}
		for i := 10; i < 14; i++ {
			if !vEqP(o[i], outs[j.step][i]) {
				vFail("step %d accepts (%v, %v) as the answer of hint %s (call %d), and buf[%d] is then %v, not %v: proof words %v", j.step+1, x, y, where, j.call, i, o[i], outs[j.step][i], p.t)
				return
			}
		}
	})
}
