//go:build go1.22

package main

// Shared by the replay harnesses: running a gadget in gnark's test engine,
// attacking its hint outputs, recording its hints, and reference arithmetic.

import (
	"crypto/sha256"
	"fmt"
	vwitness "github.com/consensys/gnark/backend/witness"
	"io"
	"log"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	vfp "github.com/consensys/gnark-crypto/ecc/bn254/fp"
	vfr "github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	vlogger "github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/test"
)

var (
	vR        = ecc.BN254.ScalarField()
	vP        = ecc.BN254.BaseField()
	vStart    = time.Now()
	vStdout   = os.Stdout
	vMu       sync.Mutex
	vCases    int
	vFails    int
	vRand     *rand.Rand
	vThorough = os.Getenv("VERIF_TIER") == "thorough"
)

func init() {
	log.SetOutput(io.Discard)
	vlogger.Disable()
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	vRand = rand.New(rand.NewSource(int64(seed)))
}

// vBudget is the time left for the harness.
func vBudget() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		n = 300
	}
	return time.Duration(n)*time.Second - time.Since(vStart)
}

func vCase() { vMu.Lock(); vCases++; vMu.Unlock() }

func vFail(f string, a ...any) {
	vMu.Lock()
	defer vMu.Unlock()
	vFails++
	if vFails <= 20 {
		fmt.Fprintf(vStdout, "\nREPLAY-FAIL %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " | "))
	}
}

func vDone(t *testing.T) {
	vMu.Lock()
	defer vMu.Unlock()
	fmt.Fprintf(vStdout, "\nREPLAY-CASES %d\nREPLAY-DONE\n", vCases)
	if vFails > 0 {
		t.Fail()
	}
}

// vOver: stop looking (a failure was found, or the time is up).
func vOver() bool {
	vMu.Lock()
	defer vMu.Unlock()
	return vFails > 0 || vBudget() < 0
}

// vParallel runs the jobs on all cores, and stops after the first failure.
func vParallel(n int, f func(i int)) {
	jobs := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				if !vOver() {
					f(i)
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
}

// vSafe runs f and turns a panic into an error.
func vSafe(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

type vFn struct{ ID int64 }

var (
	vFns  sync.Map
	vFnID atomic.Int64
)

func (c *vFn) Define(api frontend.API) error {
	f, _ := vFns.Load(c.ID)
	return f.(func(api frontend.API) error)(api)
}

// vRun evaluates a circuit function in the test engine: nil if it is satisfied.
func vRun(f func(api frontend.API) error) error {
	id := vFnID.Add(1)
	vFns.Store(id, f)
	defer vFns.Delete(id)
	err := test.IsSolved(&vFn{ID: id}, &vFn{ID: id}, vR)
	if err != nil {
		s := err.Error()
		if i := strings.Index(s, "\ngoroutine"); i >= 0 {
			s = s[:i]
		}
		return fmt.Errorf("%s", s)
	}
	return nil
}

// vAPI wraps the engine: hint calls can be recorded, failed or answered by a
// dishonest prover; comparisons and products can be observed.
type vAPI struct {
	frontend.API
	c        *vCompiler
	onMul    func(a, b frontend.Variable)
	onEq     func(a, b frontend.Variable) bool // true: skip the assertion
	onOp     func(name string)                 // may panic, as operations of a builder do
}

type vCompiler struct {
	frontend.Compiler
	calls int
	hints map[string]solver.Hint
	// hook gets the name, the number of the call and the honest outputs
	hook func(name string, call int, in []*big.Int, out []*big.Int) error
	// fail makes the creation of a hint fail
	fail func(name string, call int) error
}

type vStore interface {
	SetKeyValue(key, value any)
	GetKeyValue(key any) (value any)
}

func (c *vCompiler) SetKeyValue(key, value any)      { c.Compiler.(vStore).SetKeyValue(key, value) }
func (c *vCompiler) GetKeyValue(key any) (value any) { return c.Compiler.(vStore).GetKeyValue(key) }

func vWrap(api frontend.API, hook func(name string, call int, in, out []*big.Int) error) *vAPI {
	return &vAPI{API: api, c: &vCompiler{Compiler: api.Compiler(), hints: map[string]solver.Hint{}, hook: hook}}
}

func (a *vAPI) Compiler() frontend.Compiler { return a.c }

func (a *vAPI) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return a.c.NewHint(f, n, in...)
}

func (a *vAPI) Mul(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if a.onMul != nil {
		a.onMul(x, y)
	}
	a.op("Mul")
	return a.API.Mul(x, y, in...)
}

func (a *vAPI) AssertIsEqual(x, y frontend.Variable) {
	if a.onEq != nil && a.onEq(x, y) {
		return
	}
	a.op("AssertIsEqual")
	a.API.AssertIsEqual(x, y)
}

func (a *vAPI) op(name string) {
	if a.onOp != nil {
		a.onOp(name)
	}
}

func (a *vAPI) Add(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a.op("Add")
	return a.API.Add(x, y, in...)
}

func (a *vAPI) Sub(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a.op("Sub")
	return a.API.Sub(x, y, in...)
}

func (a *vAPI) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	a.op("ToBinary")
	return a.API.ToBinary(x, n...)
}

func (a *vAPI) AssertIsLessOrEqual(x, y frontend.Variable) {
	a.op("AssertIsLessOrEqual")
	a.API.AssertIsLessOrEqual(x, y)
}

func vHintName(f solver.Hint) string {
	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
}

// own: the hint belongs to the package under test
func vOwn(name string) bool {
	return !strings.Contains(name, "consensys") && !strings.Contains(name, "ethereum")
}

func (c *vCompiler) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	name := vHintName(f)
	c.hints[name] = f
	if !vOwn(name) || c.hook == nil {
		return c.Compiler.NewHint(f, n, in...)
	}
	call := c.calls
	c.calls++
	if c.fail != nil {
		if err := c.fail(name, call); err != nil {
			return nil, err
		}
	}
	return c.Compiler.NewHint(func(m *big.Int, ins, outs []*big.Int) error {
		if err := f(m, ins, outs); err != nil {
			return err
		}
		return c.hook(name, call, ins, outs)
	}, n, in...)
}

// vBig is the integer value of a circuit value in the engine.
func vBig(v frontend.Variable) *big.Int {
	switch x := v.(type) {
	case *big.Int:
		return new(big.Int).Set(x)
	case big.Int:
		return new(big.Int).Set(&x)
	case int:
		return big.NewInt(int64(x))
	case uint8:
		return big.NewInt(int64(x))
	case uint64:
		return new(big.Int).SetUint64(x)
	case vfp.Element:
		return x.BigInt(new(big.Int))
	case *vfp.Element:
		return x.BigInt(new(big.Int))
	case vfr.Element:
		return x.BigInt(new(big.Int))
	case *vfr.Element:
		return x.BigInt(new(big.Int))
	case string:
		n, ok := new(big.Int).SetString(x, 10)
		if ok {
			return n
		}
	}
	panic(fmt.Sprintf("value of type %T", v))
}

func vDec(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("vDec " + s)
	}
	return n
}

func vI(n int64) *big.Int { return big.NewInt(n) }

func vModR(a *big.Int) *big.Int { return new(big.Int).Mod(a, vR) }
func vAddR(a, b *big.Int) *big.Int {
	return vModR(new(big.Int).Add(a, b))
}
func vSubR(a, b *big.Int) *big.Int {
	return vModR(new(big.Int).Sub(a, b))
}
func vMulR(a, b *big.Int) *big.Int {
	return vModR(new(big.Int).Mul(a, b))
}
func vInvR(a *big.Int) *big.Int { return new(big.Int).ModInverse(vModR(a), vR) }
func vEqR(a, b *big.Int) bool   { return vModR(a).Cmp(vModR(b)) == 0 }
func vEqP(a, b *big.Int) bool {
	return new(big.Int).Mod(a, vP).Cmp(new(big.Int).Mod(b, vP)) == 0
}

// vRandR is a random field element, sometimes a boundary one.
func vRandR() *big.Int {
	vMu.Lock()
	defer vMu.Unlock()
	return new(big.Int).Rand(vRand, vR)
}

// vBoundary: interesting field elements
func vBoundary() []*big.Int {
	m1 := new(big.Int).Sub(vR, vI(1))
	m2 := new(big.Int).Sub(vR, vI(2))
	h := new(big.Int).Rsh(vR, 1)
	return []*big.Int{vI(0), vI(1), vI(2), vI(3), vI(255), vI(256), new(big.Int).Lsh(vI(1), 64), new(big.Int).Lsh(vI(1), 128),
		new(big.Int).Lsh(vI(1), 253), h, new(big.Int).Add(h, vI(1)), m2, m1}
}

// points

var vG = func() bn254.G1Affine { _, _, g, _ := bn254.Generators(); return g }()

func vMulG(k *big.Int) bn254.G1Affine { return *new(bn254.G1Affine).ScalarMultiplication(&vG, k) }

func vPt(x, y *big.Int) bn254.G1Affine {
	var p bn254.G1Affine
	p.X.SetBigInt(x)
	p.Y.SetBigInt(y)
	return p
}

func vXY(p bn254.G1Affine) (*big.Int, *big.Int) {
	return p.X.BigInt(new(big.Int)), p.Y.BigInt(new(big.Int))
}

func vSmul(k *big.Int, p bn254.G1Affine) bn254.G1Affine {
	return *new(bn254.G1Affine).ScalarMultiplication(&p, k)
}

func vAdd(p, q bn254.G1Affine) bn254.G1Affine { return *new(bn254.G1Affine).Add(&p, &q) }
func vNeg(p bn254.G1Affine) bn254.G1Affine    { return *new(bn254.G1Affine).Neg(&p) }

// vSmallPt is a random point whose coordinates are below the scalar modulus
// (all but a fraction of 2^-127 are).
func vRandPt() bn254.G1Affine { return vMulG(vRandR()) }

// vIs: x, y are the coordinates of p
func vIs(x, y *big.Int, p bn254.G1Affine) bool {
	px, py := vXY(p)
	return vEqP(x, px) && vEqP(y, py)
}

func vVars(in ...*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(in))
	for i := range in {
		r[i] = new(big.Int).Set(in[i])
	}
	return r
}

// vAttack runs a gadget honestly and then with every single hint output of
// the package changed, one at a time; post is evaluated whenever the gadget
// accepts and says what is wrong ("" if nothing is).
func vAttack(what string, f func(api frontend.API) (post func() string, err error)) {
	calls := map[int]int{}
	exec := func(hook func(name string, call int, in, out []*big.Int) error) (string, error) {
		var post func() string
		err := vRun(func(api frontend.API) error {
			var e error
			post, e = f(vWrap(api, hook))
			return e
		})
		if err != nil {
			return "", err
		}
		return post(), nil
	}
	vCase()
	bad, _ := exec(func(name string, call int, in, out []*big.Int) error { calls[call] = len(out); return nil })
	if bad != "" {
		vFail("%s: %s", what, bad)
		return
	}
	// a two-coordinate answer replaced by another point
	for c := 0; c < len(calls); c++ {
		if calls[c] != 2 {
			continue
		}
		for _, q := range [][2]*big.Int{{vI(1), vI(2)}, {vI(0), vI(0)}} {
			vCase()
			where := ""
			bad, err := exec(func(name string, call int, in, out []*big.Int) error {
				if call == c {
					where = fmt.Sprintf("the prover answers %v instead of %v for hint %s (call %d, inputs %v)", q, out, name, call, in)
					out[0], out[1] = new(big.Int).Set(q[0]), new(big.Int).Set(q[1])
				}
				return nil
			})
			if err == nil && bad != "" {
				vFail("%s: %s; %s", what, bad, where)
				return
			}
		}
	}
	for c := 0; c < len(calls); c++ {
		for o := 0; o < calls[c]; o++ {
			for _, d := range vDeltas(o, calls[c]) {
				if vOver() {
					return
				}
				vCase()
				where := ""
				bad, err := exec(func(name string, call int, in, out []*big.Int) error {
					if call == c && o < len(out) {
						old := new(big.Int).Set(out[o])
						out[o] = vModR(d(out[o]))
						where = fmt.Sprintf("the prover answers %v instead of %v for output %d of hint %s (call %d, inputs %v)", out[o], old, o, name, call, in)
					}
					return nil
				})
				if err == nil && bad != "" {
					vFail("%s: %s; %s", what, bad, where)
					return
				}
			}
		}
	}
}

func vDeltas(o, n int) []func(x *big.Int) *big.Int {
	r := []func(x *big.Int) *big.Int{
		func(x *big.Int) *big.Int { return new(big.Int).Add(x, vI(1)) },
		func(x *big.Int) *big.Int { return new(big.Int).Neg(x) },
	}
	if n == 2 {
		r = append(r, func(x *big.Int) *big.Int { return new(big.Int).Sub(vP, x) })
	}
	if n <= 8 {
		k := vRandR()
		r = append(r, func(x *big.Int) *big.Int { return new(big.Int).Set(k) },
			func(x *big.Int) *big.Int { return vI(0) })
	}
	return r
}

// vHints lists the hints of the package a function asked for.
func vHints(f func(api frontend.API) error) map[string]solver.Hint {
	var r map[string]solver.Hint
	_ = vRun(func(api frontend.API) error {
		w := vWrap(api, func(string, int, []*big.Int, []*big.Int) error { return nil })
		r = w.c.hints
		return f(w)
	})
	return r
}

func (a *vAPI) SetKeyValue(key, value any)      { a.c.SetKeyValue(key, value) }
func (a *vAPI) GetKeyValue(key any) (value any) { return a.c.GetKeyValue(key) }

func (c *vCompiler) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return c.Compiler.(frontend.Committer).Commit(v...)
}

func (a *vAPI) Commit(v ...frontend.Variable) (frontend.Variable, error) { return a.c.Commit(v...) }

// vEmuVal is the value of an emulated element with 64-bit limbs.
func vEmuVal(limbs []frontend.Variable) *big.Int {
	r := new(big.Int)
	for i := len(limbs) - 1; i >= 0; i-- {
		r.Lsh(r, 64).Add(r, vBig(limbs[i]))
	}
	return r
}

func vSha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// vInputs is the witness of a circuit, and its public part.
func vInputs(c frontend.Circuit) (all, public map[string]bool, err error) {
	w, err := frontend.NewWitness(c, vR)
	if err != nil {
		return nil, nil, err
	}
	p, err := w.Public()
	if err != nil {
		return nil, nil, err
	}
	set := func(w vwitness.Witness) map[string]bool {
		m := map[string]bool{}
		for _, x := range w.Vector().(vfr.Vector) {
			m[x.String()] = true
		}
		return m
	}
	return set(w), set(p), nil
}

// vAggMarked is an aggregation circuit whose inputs are all different.
func vAggMarked() (c *AggregatorCircuit, target, rest []string) {
	n := int64(1000)
	mk := func(l *[]frontend.Variable, count int, names *[]string) {
		for i := 0; i < count; i++ {
			n++
			*l = append(*l, vI(n))
			*names = append(*names, vI(n).String())
		}
	}
	c = &AggregatorCircuit{}
	mk(&c.Proof, 104, &rest)
	mk(&c.VerifyInst, 1, &rest)
	mk(&c.Aux, 21, &rest)
	mk(&c.TargetInst, 4, &target)
	return
}
