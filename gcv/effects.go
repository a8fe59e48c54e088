package main

// Two clauses about how a function treats its operands and its steps, for
// arbitrary values:
//
//   compiles    every frontend.Variable is an opaque handle, as it is when a
//               circuit is compiled; no operation needs its concrete value.
//   propagates  every fallible step (a call into the dependencies, or of a
//               function of the package, that returns an error) may fail; the
//               function then returns an error, panics, or returns a result
//               that is itself an error value.
//
// Values are abstracted (an API operation yields an arbitrary value and
// assertions constrain nothing); control flow, calls and memory are exact.
// Loops whose trip count is not a constant are widened: one iteration from an
// arbitrary loop state.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) abs() bool { return ex.mode == Compile || ex.mode == Fault }

// havocVar is an arbitrary frontend.Variable.
func (ex *Exec) havocVar(st *State) Iface {
	if ex.mode == Compile {
		return Iface{types.Typ[types.Complex128], Opq{"circuitvar", map[string]Val{"o": "a computed value"}}}
	}
	return ex.newVar(st, IVar(freshName("val!"), big0, rMinus1))
}

func originOf(v Val) string {
	if f, ok := v.(Iface); ok {
		if o, ok := f.V.(Opq); ok {
			if s, ok := o.D["o"].(string); ok {
				return s
			}
		}
	}
	return "a variable"
}

// origin of an entry value: the parameter (without indices)
func originName(path string) string {
	var b strings.Builder
	d := 0
	for _, c := range path {
		switch {
		case c == '[':
			d++
		case c == ']':
			d--
		case d == 0:
			b.WriteRune(c)
		}
	}
	return "parameter " + b.String()
}

func (ex *Exec) circuitVarOf(path string) Iface {
	return Iface{types.Typ[types.Complex128], Opq{"circuitvar", map[string]Val{"o": originName(path)}}}
}

// poisoned: v is an error in place of a value.
func poisoned(v Val) bool {
	f, ok := v.(Iface)
	if !ok {
		return false
	}
	_, ok = f.V.(ErrV)
	return ok
}

// absAPI executes a frontend.API (or compiler) method on abstract values.
func (ex *Exec) absAPI(st *State, name string, sig *types.Signature, args []Val, ci *CallInfo) (outs []Outcome, ok bool) {
	switch name {
	case "Compiler", "Field", "FieldBitLen", "NewHint", "ConstantValue", "MarkBoolean", "Println", "IsBoolean":
		return nil, false
	}
	var vs []Val
	for _, a := range args {
		switch x := a.(type) {
		case Iface:
			vs = append(vs, x)
		case Slice:
			if x.Obj != 0 {
				for _, e := range ex.seqElems(st, x) {
					if q, is := e.(symSeq); is {
						e = q.Gen
					}
					if _, is := e.(Iface); is {
						vs = append(vs, e)
					}
				}
			}
		}
	}
	opaque := ex.mode == Fault
	for _, v := range vs {
		if poisoned(v) || v.(Iface).T == nil {
			return panics(st, "API."+name+" of a failed or missing value at "+ex.pos(ci.pos)), true
		}
		if isCircuitVar(v) {
			opaque = true
		}
	}
	if !opaque {
		return nil, false
	}
	if name == "ToBinary" {
		n := int64(254)
		if s, is := args[1].(Slice); is && s.Obj != 0 {
			if es := ex.elems(st, s); len(es) > 0 {
				if k, c := st.constInt(es[0]); c {
					n = k
				} else {
					return one(st, ex.havocSlice(st, func() Val { return ex.havocVar(st) })), true
				}
			}
		}
		var es []Val
		for i := int64(0); i < n; i++ {
			es = append(es, ex.havocVar(st))
		}
		return one(st, ex.newSlice(st, es)), true
	}
	switch sig.Results().Len() {
	case 0:
		return one(st, nil), true
	case 1:
		if typeKey(sig.Results().At(0).Type()) == pG+"/frontend.Variable" {
			return one(st, ex.havocVar(st)), true
		}
	}
	return nil, false
}

// havocSlice is a slice of arbitrary length and arbitrary elements.
func (ex *Exec) havocSlice(st *State, gen func() Val) Slice {
	ln := IVar(freshName("len!"), big0, big.NewInt(1<<31-1))
	p := st.alloc(nil, nil)
	st.heap[p.Obj] = &Obj{V: GenArr{Len: ln, Idx: IVar(freshName("hi!"), nil, nil), Gen: gen()}}
	return Slice{p.Obj, nil, IC(0), ln, ln}
}

// ---------- faults ----------

// faultable: a step whose failure counts: a call that leaves the package for
// something other than the standard library.
func stepName(pkg string) bool {
	return strings.Contains(strings.SplitN(pkg, "/", 2)[0], ".")
}

func lastIsErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type())
}

// errResult is the error of a call's result.
func errResult(sig *types.Signature, ret Val) Iface {
	if sig.Results().Len() == 1 {
		f, _ := ret.(Iface)
		return f
	}
	t, _ := ret.(Tuple)
	f, _ := t[len(t)-1].(Iface)
	return f
}

// failing is the outcome of a call that fails: zero results and an error.
func (ex *Exec) failing(st *State, sig *types.Signature, name string, pos string) Outcome {
	s := st.clone()
	s.failed = name + " at " + pos
	s.trace = append(s.trace, name+" fails at "+pos)
	var t Tuple
	for i := 0; i < sig.Results().Len()-1; i++ {
		t = append(t, zeroVal(sig.Results().At(i).Type()))
	}
	t = append(t, ex.errVal("failure of "+name))
	if len(t) == 1 {
		return Outcome{st: s, ret: t[0]}
	}
	return Outcome{st: s, ret: t}
}

// step runs a call that may fail.
func (ex *Exec) mayFail(st *State, sig *types.Signature, name string, pos string, run func(*State) []Outcome) []Outcome {
	if ex.mode != Fault || !lastIsErr(sig) {
		return run(st)
	}
	var extra []Outcome
	if ex.faultOff == 0 && st.failed == "" {
		extra = append(extra, ex.failing(st, sig, name, pos))
	}
	outs := run(st)
	for i := range outs {
		if !outs[i].panic && !outs[i].st.dead && errResult(sig, outs[i].ret).T != nil && outs[i].st.failed == "" {
			outs[i].st.failed = name + " at " + pos
		}
	}
	return append(outs, extra...)
}

// absCall: a function of the package with an effect clause of its own is not
// examined again inside its callers: it either works or fails.
func (ex *Exec) absCall(st *State, fn *ssa.Function, args []Val, bind []Val, pos string) ([]Outcome, bool) {
	if !ex.abs() || fn.Parent() != nil {
		return nil, false
	}
	k := funcKey(fn)
	c := contracts[k]
	if c == nil || k == ex.cur || c.clauseFor(ex.mode) == nil {
		return nil, false
	}
	if ex.mode == Compile {
		saved := ex.compileHits
		ex.compileHits = map[string]bool{}
		outs := ex.runFn(st, fn, args, bind)
		if len(ex.compileHits) > 0 {
			saved["use of "+k+", which needs the value of a circuit variable"] = true
		}
		ex.compileHits = saved
		return outs, true
	}
	sig := fn.Signature
	var extra []Outcome
	if ex.faultOff == 0 && st.failed == "" {
		if lastIsErr(sig) {
			extra = append(extra, ex.failing(st, sig, k, pos))
		}
		if ex.poisonous != nil && ex.poisonous(k) {
			s := st.clone()
			s.failed = k + " at " + pos
			s.trace = append(s.trace, k+" fails at "+pos)
			var t Tuple
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				if typeKey(rt) == pG+"/frontend.Variable" {
					t = append(t, ex.errVal("failure of "+k))
				} else {
					t = append(t, zeroVal(rt))
				}
			}
			if len(t) == 1 {
				extra = append(extra, Outcome{st: s, ret: t[0]})
			} else {
				extra = append(extra, Outcome{st: s, ret: t})
			}
		}
	}
	if st.failed != "" && ex.cur != "" {
		// the failure happened before: carry on to see what comes of it
		ex.faultOff++
		outs := ex.runFn(st, fn, args, bind)
		ex.faultOff--
		return outs, true
	}
	ex.faultOff++
	outs := ex.runFn(st, fn, args, bind)
	ex.faultOff--
	for i := range outs {
		if lastIsErr(sig) && !outs[i].panic && !outs[i].st.dead && errResult(sig, outs[i].ret).T != nil && outs[i].st.failed == "" {
			outs[i].st.failed = k + " at " + pos
		}
	}
	return append(outs, extra...), true
}

// ---------- loops ----------

// havocLike is an arbitrary value of the shape of v.
func (ex *Exec) havocLike(st *State, t types.Type, v Val) Val {
	switch x := v.(type) {
	case *Term:
		switch x.S {
		case SBool:
			return mk("var", SBool, freshName("hb!"), nil, 0, 0)
		case SInt:
			var lo, hi *big.Int
			if t != nil {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					lo, hi = intRange(t)
				}
			}
			return IVar(freshName("hv!"), lo, hi)
		case SFld:
			return FVar(freshName("hf!"))
		case SPt:
			return UF(SPt, freshName("hp!"))
		}
	case Iface:
		if t != nil && types.Identical(t, types.Universe.Lookup("error").Type()) {
			return x
		}
		if x.T == nil && t != nil && typeKey(t) != pG+"/frontend.Variable" {
			return x
		}
		if poisoned(x) {
			return x
		}
		if isCircuitVar(x) || x.T == nil {
			return ex.havocVar(st)
		}
		if _, why := ex.varTerm(st, x); why == "" {
			return ex.havocVar(st)
		}
		return x
	case GenArr:
		return GenArr{Len: x.Len, Idx: x.Idx, Gen: ex.havocLike(st, nil, x.Gen)}
	case Arr:
		a := Arr{make([]Val, len(x.E))}
		for i, e := range x.E {
			a.E[i] = ex.havocLike(st, nil, e)
		}
		return a
	case Struct:
		s := Struct{make([]Val, len(x.F))}
		for i, e := range x.F {
			s.F[i] = ex.havocLike(st, nil, e)
		}
		return s
	case SymPtr:
		return SymPtr{ex.havocLike(st, nil, x.V)}
	case Slice:
		var et types.Type
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		if et == nil {
			unsup("loop carries a slice of unknown type")
		}
		return ex.havocSlice(st, func() Val { return ex.havocOf(st, et) })
	}
	return v
}

// havocOf is an arbitrary value of type t.
func (ex *Exec) havocOf(st *State, t types.Type) Val {
	if typeKey(t) == pG+"/frontend.Variable" {
		return ex.havocVar(st)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return SymPtr{ex.havocOf(st, pt.Elem())}
	}
	switch abstractScalar(t) {
	case "big", "fp":
		return IVar(freshName("hv!"), nil, nil)
	case "emul":
		return IVar(freshName("hv!"), big0, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueType(t) != "" {
			unsup("arbitrary value of %s", t)
		}
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = ex.havocOf(st, u.Field(i).Type())
		}
		return s
	case *types.Slice:
		return ex.havocSlice(st, func() Val { return ex.havocOf(st, u.Elem()) })
	case *types.Array:
		a := Arr{make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = ex.havocOf(st, u.Elem())
		}
		return a
	}
	return ex.havocLike(st, t, zeroVal(t))
}

// widen replaces a loop by an arbitrary number of iterations.
func (ex *Exec) widen(fr *Frame, st *State, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, work *[]workItem, rr *runResult) {
	ex.faultOff++
	var dirty []dirtyCell
	// the cells written, to a fixed point: a second trial from the widened state
	base, bf := st, fr
	for round := 0; ; round++ {
		d := ex.trial(bf, base, header, body)
		n := len(dirty)
		for _, c := range d {
			dup := false
			for _, e := range dirty {
				if e.obj == c.obj && fmt.Sprint(e.path) == fmt.Sprint(c.path) {
					dup = true
				}
			}
			if _, inOld := st.heap[c.obj]; !dup && inOld {
				dirty = append(dirty, c)
			}
		}
		if round > 0 && len(dirty) == n {
			break
		}
		if round > 6 {
			unsup("loop in %s cannot be widened", fr.fn)
		}
		base, bf = ex.havocLoop(fr, st, header, dirty)
	}
	ex.faultOff--
	bf.rep[header] = true
	bf.stop = &loopStop{header, body}
	leave := func(w workItem) { // back to the code after the loop
		w.fr.stop = fr.stop
		if fr.stop != nil {
			if w.b == fr.stop.header {
				ex.enter(w.fr, w.st, w.prev, w.b)
				rr.backs = append(rr.backs, w)
				return
			}
			if !fr.stop.body[w.b] {
				rr.exits = append(rr.exits, w)
				return
			}
		}
		ex.enter(w.fr, w.st, w.prev, w.b)
		delete(w.fr.rep, header)
		*work = append(*work, workItem{w.fr, w.st, w.b, w.prev, 0})
	}
	iterate := func(f *Frame, s *State) *runResult {
		r := &runResult{}
		ws := []workItem{{f, s, header, nil, 0}}
		for len(ws) > 0 {
			w := ws[len(ws)-1]
			ws = ws[:len(ws)-1]
			ex.step(w, &ws, r)
		}
		return r
	}
	r := iterate(bf, base)
	rr.outs = append(rr.outs, r.outs...)
	for _, e := range r.exits {
		leave(e)
	}
	// a failure carried into the next iteration: two more of them
	pending := r.backs
	for n := 0; n < 2; n++ {
		var next []workItem
		for _, b := range pending {
			if b.st.dead || b.st.failed == "" {
				continue
			}
			b.fr.stop = &loopStop{header, body}
			b.fr.rep[header] = true
			r := iterate(b.fr, b.st)
			rr.outs = append(rr.outs, r.outs...)
			for _, e := range r.exits {
				leave(e)
			}
			next = append(next, r.backs...)
		}
		pending = next
	}
}

func (ex *Exec) havocLoop(fr *Frame, st *State, header *ssa.BasicBlock, dirty []dirtyCell) (*State, *Frame) {
	base, bf := st.clone(), fr.clone()
	bf.rep = map[*ssa.BasicBlock]bool{}
	for h := range fr.rep {
		bf.rep[h] = true
	}
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		bf.env[phi] = ex.havocLike(base, phi.Type(), fr.env[phi])
	}
	for _, d := range dirty {
		p := Ptr{d.obj, d.path}
		base.store(p, ex.havocLike(base, nil, base.load(p)))
	}
	return base, bf
}

// ---------- verification ----------

func (c *Contract) clauseFor(m Mode) *Clause {
	l := c.Compiles
	if m == Fault {
		l = c.Propagates
	}
	if len(l) == 0 {
		return nil
	}
	return &l[0]
}

// baseContract: effect clauses are written once, on the untagged contract.
func (v *Verifier) verifyEffects(c *Contract, fn *ssa.Function, mode Mode) {
	cl := c.clauseFor(mode)
	ts := time.Now()
	sum := map[string]bool{}
	bads := map[string]string{}
	poison := false
	n := 0
	for _, cs := range v.caseList(c) {
		ex := v.newExec(mode)
		ex.cur = c.Key
		ex.assumeNonExceptional = true
		ex.poisonous = v.poisonous
		varSeq = map[string]int{}
		var outs []Outcome
		var pre *State
		var args []Val
		msg, _ := catchSpec(func() {
			st := v.init.clone()
			e := &entry{v, ex, st, c, cs}
			for i, p := range fn.Params {
				args = append(args, e.build(c.Params[i], p.Type()))
			}
			env := &Env{ex: ex, pre: st, post: st, cur: st, vars: v.bindVars(c, fn, args)}
			for _, r := range c.Requires {
				st.assume(env.Bool(r.E))
			}
			pre = st.clone()
			outs = ex.runFn(st, fn, args, nil)
		})
		if msg != "" {
			v.unsup = append(v.unsup, OblRes{Func: c.Key, Kind: "unsupported", Labels: cl.Labels, Case: caseName(cs), Detail: msg, Src: mode.String()})
			return
		}
		for h := range ex.compileHits {
			sum[h] = true
		}
		for _, o := range outs {
			if o.st.dead || o.panic && !o.exit0 {
				continue
			}
			n++
			if mode != Fault || o.st.failed == "" {
				continue
			}
			isErr, isPois := false, false
			for i, r := range resVals(fn, o.ret) {
				if f, ok := r.(Iface); ok && f.T != nil && i == errIndex(fn) {
					isErr = true
				} else if poisoned(r) {
					isPois = true
				}
			}
			for _, a := range args { // a result written through an argument
				if s, ok := a.(Slice); ok && s.Obj != 0 && pre.heap[s.Obj] != o.st.heap[s.Obj] && holdsPoison(o.st.heap[s.Obj].V, 0) {
					isPois = true
				}
			}
			poison = poison || isPois && !isErr
			if step, _, _ := strings.Cut(o.st.failed, " at "); !isErr && !isPois && bads[step] == "" {
				bads[step] = "returns normally after a failure of " + o.st.failed + pathOf(o.st)
			}
		}
		if os.Getenv("GCV_EFF") != "" {
			fmt.Fprintf(os.Stderr, "%s %s {%s}: %d outcomes, hits %v\n", c.Key, mode, caseName(cs), len(outs), sortedKeys(ex.compileHits))
		}
	}
	c.poison = poison
	if mode == Fault {
		if len(bads) == 0 {
			v.add(OblRes{Func: c.Key, Kind: "propagates", Labels: cl.Labels, Src: "a failed step makes it fail", Where: cl.Line, OK: true, Dur: time.Since(ts)})
		}
		for _, step := range sortedKeysS(bads) {
			short := strings.ReplaceAll(step, "github.com/consensys/", "")
			v.add(OblRes{Func: c.Key, Kind: "propagates", Labels: cl.Labels, Src: "a failure of " + short + " makes it fail", Where: cl.Line, OK: false, Detail: bads[step], Dur: time.Since(ts)})
		}
		return
	}
	hits := sortedKeys(sum)
	if len(hits) == 0 {
		v.add(OblRes{Func: c.Key, Kind: "compiles", Labels: cl.Labels, Src: "uses no concrete value of a circuit variable", Where: cl.Line, OK: true, Dur: time.Since(ts)})
	}
	for _, h := range hits {
		v.add(OblRes{Func: c.Key, Kind: "compiles", Labels: cl.Labels, Src: "no " + h, Where: cl.Line, OK: false, Detail: h, Dur: time.Since(ts)})
	}
}

func holdsPoison(v Val, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case Iface:
		return poisoned(x)
	case Arr:
		for _, e := range x.E {
			if holdsPoison(e, depth+1) {
				return true
			}
		}
	case Struct:
		for _, e := range x.F {
			if holdsPoison(e, depth+1) {
				return true
			}
		}
	case GenArr:
		for _, w := range x.Writes {
			if holdsPoison(w.V, depth+1) {
				return true
			}
		}
	}
	return false
}

// poisonous: the function may return an error in place of a value.
func (v *Verifier) poisonous(k string) bool {
	c := contracts[k]
	if c == nil || len(c.Propagates) == 0 {
		return false
	}
	v.Effects(k, Fault)
	return c.poison
}

func pkgPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

var absIntrinsics = map[string]intr{
	"(*"+pG+"/std/algebra/emulated/sw_emulated.Curve[B, S]).MultiScalarMul": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		f := st.clone()
		x, y := IVar(freshName("hx!"), big0, nil), IVar(freshName("hy!"), big0, nil)
		return []Outcome{
			{st: f, ret: Tuple{Ptr{}, ex.errVal("mismatching points and scalars slice lengths")}},
			{st: st, ret: Tuple{st.alloc(nil, Struct{[]Val{x, y}}), nilErr}},
		}
	},
}

// Effects verifies the effect clause of a contract once.
func (v *Verifier) Effects(key string, mode Mode) {
	c := contracts[key]
	if c == nil || c.clauseFor(mode) == nil || c.effDone[mode] {
		return
	}
	if c.effDone == nil {
		c.effDone = map[Mode]bool{}
	}
	c.effDone[mode] = true
	fn := v.funcs[strings.SplitN(key, "#", 2)[0]]
	if fn == nil || len(fn.Params) != len(c.Params) {
		v.notes["contract for "+key+" not applicable: no such function, or another signature"] = true
		return
	}
	seq := varSeq
	v.verifyEffects(c, fn, mode)
	varSeq = seq
}

func init() {
	extraChecks["C19"] = append(extraChecks["C19"], func(v *Verifier) {
		for _, k := range contractOrder {
			v.Effects(k, Fault)
		}
	})
	extraChecks["C20"] = append(extraChecks["C20"], func(v *Verifier) {
		for _, k := range contractOrder {
			v.Effects(k, Compile)
		}
	})
}
