package main

// Symbolic execution of go/ssa: path forking, calls (contract, intrinsic or
// inlined), concrete unrolling and loop summarisation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Mode int

const (
	Sound    Mode = iota // hints arbitrary, assertions assumed
	Complete             // hints honest, assertions are obligations
	Compile              // circuit variables are opaque compile-time handles
	Fault                // values arbitrary, any fallible step may fail
)

func (m Mode) String() string { return [...]string{"sound", "complete", "compile", "fault"}[m] }

type Outcome struct {
	st    *State
	ret   Val
	panic bool
	exit0 bool // os.Exit(0): the program ends normally here
	why   string
}

type Frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]Val
	cnt  map[*ssa.BasicBlock]int
	rep  map[*ssa.BasicBlock]bool // loops being summarised (iteration body run)
	stop *loopStop
	def  []deferred
}

type deferred struct {
	c    *ssa.Defer
	args []Val
	fn   Val
}

type loopStop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+4), cnt: make(map[*ssa.BasicBlock]int, len(f.cnt)), rep: f.rep, stop: f.stop, def: append([]deferred{}, f.def...)}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.cnt {
		n.cnt[k] = v
	}
	return n
}

type Exec struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	mode    Mode
	globals map[*ssa.Global]int
	dirty   map[*ssa.Global]string // package variables that may have changed
	// modular policy: useContract decides whether a call is replaced by its
	// callee's contract.
	useContract func(fn *ssa.Function) *Contract
	applied     map[string]int // contract instances applied
	inlined     map[string]int
	obls        []*Obl // obligations raised at call sites / in complete mode
	depth       int
	paths       int
	maxPaths    int
	cur         string
	fieldMod    *big.Int
	compileHits map[string]bool
	notes       map[string]bool
	deadline    func() bool
	ntypes      map[string]types.Type
	apiType     types.Type
	opaquePtr   types.Type
	hintsUsed   map[string]bool
	registered  map[string]bool
	// completeness under the hypothesis that no incomplete curve operation
	// meets its exceptional case
	assumeNonExceptional bool
	noSummary            bool
	faultOff             int
	poisonous            func(key string) bool
	noWatch              bool
}

// Obl is a verification condition raised during execution.
type Obl struct {
	Name   string
	Labels []string
	St     *State
	Goal   *Term
	Detail string
	Res    int // 1 proved, -1 refuted, 0 undecided
	Back   string
}

type workItem struct {
	fr   *Frame
	st   *State
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	i    int
}

type runResult struct {
	outs  []Outcome
	backs []workItem // arrivals at the stop header
	exits []workItem // jumps out of the stop loop
}

const maxUnroll = 3000

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		id, ok := ex.globals[x]
		if !ok {
			unsup("global %s", x)
		}
		if why, ok := ex.dirty[x]; ok {
			unsup("package variable %s, which %s may have changed before", x.Name(), why)
		}
		return Ptr{Obj: id}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return Opq{"builtin:" + x.Name(), nil}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("unbound ssa value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BC(constant.BoolVal(c.Value))
	case constant.Int:
		v, ok := constant.Val(c.Value).(*big.Int)
		if !ok {
			i, _ := constant.Int64Val(c.Value)
			v = big.NewInt(i)
		}
		return ICB(v)
	case constant.String:
		return strC(constant.StringVal(c.Value))
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return IC(i)
		}
	}
	return Opq{"const:" + c.Value.String(), nil}
}

// loops
type loopInfo struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := li.header[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.header[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	loopCache[fn] = li
	return li
}

// call executes fn (contract, intrinsic or body), recording the call if a
// specification mentions it.
func (ex *Exec) call(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	if len(watched) == 0 || fn.Pkg != ex.pkg || !watched[funcKey(fn)] || ex.noWatch {
		return ex.call1(st, fn, args, bind, pos)
	}
	pre := st.clone()
	outs := ex.call1(st, fn, args, bind, pos)
	for i := range outs {
		s := outs[i].st
		if s.dead || outs[i].panic {
			continue
		}
		s.events = append(s.events, Event{Kind: "call:" + funcKey(fn), Pos: ex.pos(pos), Vals: args, Pre: pre, Post: s.clone()})
	}
	return outs
}

var watched = map[string]bool{} // functions named in before(..)/after(..)

func (ex *Exec) call1(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	name := fnName(fn)
	in, ok := intrinsics[name]
	if ex.abs() && absIntrinsics[name] != nil {
		in, ok = absIntrinsics[name], true
	}
	if !ok {
		in = prefixIntrinsic(name)
	}
	if in != nil {
		trustedUsed[name]++
		run := func(s *State) []Outcome { return in(ex, s, args, &CallInfo{fn: fn, pos: pos, name: name}) }
		if stepName(pkgPath(fn)) {
			return ex.mayFail(st, fn.Signature, name, ex.pos(pos), run)
		}
		return run(st)
	}
	if fn.Pkg == ex.pkg || fn.Origin() != nil && fn.Origin().Pkg == ex.pkg || fn.Parent() != nil {
		if ex.useContract != nil {
			if c := ex.useContract(fn); c != nil {
				if outs, ok := ex.applyContract(st, c, fn, args, pos); ok {
					return outs
				}
			}
		}
		ex.inlined[fn.Name()]++
		if outs, ok := ex.absCall(st, fn, args, bind, ex.pos(pos)); ok {
			return outs
		}
		outs := ex.runFn(st, fn, args, bind)
		if ex.mode == Fault && lastIsErr(fn.Signature) {
			for i := range outs {
				if !outs[i].panic && !outs[i].st.dead && outs[i].st.failed == "" && errResult(fn.Signature, outs[i].ret).T != nil {
					outs[i].st.failed = fnName(fn) + " at " + ex.pos(pos)
				}
			}
		}
		return outs
	}
	if fn.Synthetic != "" && fn.Blocks != nil {
		return ex.runFn(st, fn, args, bind)
	}
	unsup("external function %s", name)
	return nil
}

func (ex *Exec) runFn(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 60 {
		unsup("call depth (recursion?) at %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, cnt: map[*ssa.BasicBlock]int{}, rep: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		}
	}
	rr := ex.run([]workItem{{fr, st, fn.Blocks[0], nil, 0}})
	return rr.outs
}

func (ex *Exec) run(work []workItem) *runResult {
	rr := &runResult{}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		ex.step(w, &work, rr)
		if len(rr.outs) > ex.maxPaths {
			unsup("path limit in %s", w.fr.fn)
		}
		if ex.deadline != nil && ex.deadline() {
			unsup("time limit")
		}
	}
	return rr
}

// noRecover: a panic in fr ends fr abnormally, unless a deferred function
// recovers, which is not modelled.
func (fr *Frame) noRecover() {
	for _, d := range fr.def {
		if f, ok := d.fn.(FuncV); !ok || f.Fn == nil || recovers(f.Fn, map[*ssa.Function]bool{}) {
			unsup("recovered panic in %s", fr.fn)
		}
	}
}

func recovers(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
				return true
			}
			if f := c.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg && recovers(f, seen) {
				return true
			}
		}
	}
	return false
}

// goTo evaluates the phis of target and schedules/continues there.
func (ex *Exec) enter(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from {
				vals = append(vals, ex.val(fr, st, phi.Edges[i]))
				break
			}
		}
		phis = append(phis, phi)
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (ex *Exec) step(w workItem, work *[]workItem, rr *runResult) {
	fr, st, b, i := w.fr, w.st, w.b, w.i
	for {
		if st.dead {
			return
		}
		if i >= len(b.Instrs) {
			unsup("fell off block")
		}
		in := b.Instrs[i]
		st.steps++
		if st.steps > 3000000 {
			unsup("step limit in %s", fr.fn)
		}
		jump := func(to *ssa.BasicBlock, f *Frame, s *State) bool {
			// returns true if execution continues in this step loop
			if f.stop != nil {
				if to == f.stop.header {
					ex.enter(f, s, b, to)
					rr.backs = append(rr.backs, workItem{f, s, to, b, 0})
					return false
				}
				if !f.stop.body[to] {
					rr.exits = append(rr.exits, workItem{f, s, to, b, 0})
					return false
				}
			}
			return true
		}
		switch x := in.(type) {
		case *ssa.Phi:
			i++
			continue
		case *ssa.Jump:
			to := b.Succs[0]
			if !jump(to, fr, st) {
				return
			}
			ex.enter(fr, st, b, to)
			ex.countLoop(fr, b, to)
			b, i = to, 0
			continue
		case *ssa.If:
			c, ok := ex.val(fr, st, x.Cond).(*Term)
			if !ok {
				unsup("non-term condition")
			}
			d := st.decide(c)
			li := loopsOf(fr.fn)
			body := li.header[b]
			if body != nil && (body[b.Succs[0]] != body[b.Succs[1]]) && !fr.rep[b] {
				if ex.abs() && (d == 0 || fr.cnt[b] > maxUnroll) {
					ex.widen(fr, st, b, body, work, rr)
					return
				}
				if d == 0 || fr.cnt[b] > maxUnroll {
					ex.summarise(fr, st, b, body, work, rr)
					return
				}
			}
			if d != 0 {
				to := b.Succs[0]
				if d < 0 {
					to = b.Succs[1]
				}
				if !jump(to, fr, st) {
					return
				}
				ex.enter(fr, st, b, to)
				ex.countLoop(fr, b, to)
				b, i = to, 0
				continue
			}
			ex.paths++
			if ex.paths > 20000 {
				unsup("path explosion in %s", fr.fn)
			}
			// fork
			fr2, st2 := fr.clone(), st.clone()
			if st2.assume(BNot(c)) {
				to := b.Succs[1]
				if jump(to, fr2, st2) {
					ex.enter(fr2, st2, b, to)
					ex.countLoop(fr2, b, to)
					*work = append(*work, workItem{fr2, st2, to, b, 0})
				}
			}
			if !st.assume(c) {
				return
			}
			to := b.Succs[0]
			if !jump(to, fr, st) {
				return
			}
			ex.enter(fr, st, b, to)
			ex.countLoop(fr, b, to)
			b, i = to, 0
			continue
		case *ssa.Return:
			var ret Val
			switch len(x.Results) {
			case 0:
			case 1:
				ret = ex.val(fr, st, x.Results[0])
			default:
				var t Tuple
				for _, r := range x.Results {
					t = append(t, ex.val(fr, st, r))
				}
				ret = t
			}
			rr.outs = append(rr.outs, Outcome{st: st, ret: ret})
			return
		case *ssa.Panic:
			fr.noRecover()
			rr.outs = append(rr.outs, Outcome{st: st, panic: true, why: "panic at " + ex.pos(x.Pos())})
			return
		case *ssa.RunDefers:
			for j := len(fr.def) - 1; j >= 0; j-- {
				d := fr.def[j]
				outs := ex.callVal(st, d.fn, d.args, d.c.Call.Pos())
				if len(outs) != 1 || outs[0].panic {
					unsup("deferred call with several outcomes")
				}
				st = outs[0].st
			}
			fr.def = nil
			i++
			continue
		case *ssa.Defer:
			if x.Call.IsInvoke() {
				unsup("deferred interface call")
			}
			fn, args := ex.callee(fr, st, &x.Call)
			if f, ok := fn.(FuncV); !ok || f.Fn == nil || recovers(f.Fn, map[*ssa.Function]bool{}) {
				unsup("deferred recover in %s", fr.fn)
			}
			fr.def = append(fr.def, deferred{x, args, fn})
			i++
			continue
		case *ssa.Call:
			outs := ex.doCall(fr, st, &x.Call, x)
			live := outs[:0:0]
			for _, o := range outs {
				if o.st.dead {
					continue
				}
				if o.panic {
					if !o.exit0 {
						fr.noRecover()
					}
					rr.outs = append(rr.outs, o)
					continue
				}
				live = append(live, o)
			}
			if len(live) == 0 {
				return
			}
			for j := len(live) - 1; j >= 1; j-- {
				f2 := fr.clone()
				f2.env[x] = live[j].ret
				*work = append(*work, workItem{f2, live[j].st, b, w.prev, i + 1})
				ex.paths++
			}
			fr.env[x] = live[0].ret
			st = live[0].st
			i++
			continue
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("concurrency instruction in %s", fr.fn)
		default:
			outs := ex.instr(fr, st, in)
			// outs: list of alternative (state, panic) or nil for plain
			if outs != nil {
				for _, o := range outs {
					if o.panic {
						if !o.st.dead {
							fr.noRecover()
							rr.outs = append(rr.outs, o)
						}
					}
				}
				if st.dead {
					return
				}
			}
			i++
		}
	}
}

func (ex *Exec) countLoop(fr *Frame, from, to *ssa.BasicBlock) {
	li := loopsOf(fr.fn)
	if body, ok := li.header[to]; ok {
		if body[from] {
			fr.cnt[to]++
		} else {
			fr.cnt[to] = 0
			delete(fr.rep, to)
		}
	}
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// mayPanic forks a panic outcome guarded by bad; the current state continues
// with !bad.
func (ex *Exec) mayPanic(st *State, bad *Term, why string) []Outcome {
	switch st.decide(bad) {
	case -1:
		return nil
	case 1:
		s2 := st.clone()
		st.dead = true
		return []Outcome{{st: s2, panic: true, why: why}}
	}
	s2 := st.clone()
	var outs []Outcome
	if s2.assume(bad) {
		outs = append(outs, Outcome{st: s2, panic: true, why: why})
	}
	st.assume(BNot(bad))
	if outs == nil {
		return nil
	}
	return outs
}

func (ex *Exec) instr(fr *Frame, st *State, in ssa.Instruction) []Outcome {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = st.alloc(t, zeroVal(t))
	case *ssa.Store:
		p := ex.val(fr, st, x.Addr)
		v := ex.val(fr, st, x.Val)
		pp, ok := p.(Ptr)
		if !ok {
			unsup("store through %T at %s", p, ex.pos(x.Pos()))
		}
		if pp.Obj == 0 {
			s2 := st.clone()
			st.dead = true
			return []Outcome{{st: s2, panic: true, why: "nil store at " + ex.pos(x.Pos())}}
		}
		st.store(pp, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := ex.val(fr, st, x.X)
			switch pp := p.(type) {
			case Ptr:
				if pp.Obj == 0 {
					s2 := st.clone()
					st.dead = true
					return []Outcome{{st: s2, panic: true, why: "nil dereference at " + ex.pos(x.Pos())}}
				}
				fr.env[x] = st.load(pp)
			case SymPtr:
				fr.env[x] = pp.V
			default:
				unsup("load through %T", p)
			}
		case token.NOT:
			fr.env[x] = BNot(ex.val(fr, st, x.X).(*Term))
		case token.SUB:
			fr.env[x] = wrapInt(INeg(ex.term(fr, st, x.X)), x.Type())
		case token.XOR:
			t := ex.term(fr, st, x.X)
			if lo, hi := intRange(x.Type()); lo != nil && lo.Sign() == 0 {
				fr.env[x] = ISub(ICB(hi), t)
			} else {
				fr.env[x] = ISub(IC(-1), t)
			}
		default:
			unsup("unop %s", x.Op)
		}
	case *ssa.BinOp:
		a, b := ex.val(fr, st, x.X), ex.val(fr, st, x.Y)
		v, outs := ex.binop(st, x.Op, a, b, x.X.Type(), x.Type(), ex.pos(x.Pos()))
		fr.env[x] = v
		return outs
	case *ssa.FieldAddr:
		p := ex.val(fr, st, x.X)
		switch pp := p.(type) {
		case Ptr:
			if pp.Obj == 0 {
				s2 := st.clone()
				st.dead = true
				return []Outcome{{st: s2, panic: true, why: "nil dereference at " + ex.pos(x.Pos())}}
			}
			t := x.X.Type().Underlying().(*types.Pointer).Elem()
			if abstractScalar(t) != "" {
				unsup("field of abstract %s", t)
			}
			fr.env[x] = Ptr{pp.Obj, ext(pp.Path, PathElem{I: x.Field})}
		case SymPtr:
			fr.env[x] = SymPtr{getPath(pp.V, []PathElem{{I: x.Field}}, st)}
		default:
			unsup("fieldaddr of %T", p)
		}
	case *ssa.Field:
		v := ex.val(fr, st, x.X)
		s, ok := v.(Struct)
		if !ok {
			unsup("field of %T", v)
		}
		fr.env[x] = s.F[x.Field]
	case *ssa.IndexAddr:
		idx := ex.term(fr, st, x.Index)
		base := ex.val(fr, st, x.X)
		switch bb := base.(type) {
		case Ptr: // pointer to array
			if bb.Obj == 0 {
				s2 := st.clone()
				st.dead = true
				return []Outcome{{st: s2, panic: true, why: "nil dereference at " + ex.pos(x.Pos())}}
			}
			at := x.X.Type().Underlying().(*types.Pointer).Elem()
			if abstractScalar(at) != "" {
				unsup("limb of %s", at)
			}
			n := at.Underlying().(*types.Array).Len()
			outs := ex.mayPanic(st, BNot(BAnd(Le(IC(0), idx), Lt(idx, IC(n)))), "index out of range at "+ex.pos(x.Pos()))
			if st.dead {
				return outs
			}
			fr.env[x] = Ptr{bb.Obj, ext(bb.Path, idxElem(st, idx))}
			return outs
		case Slice:
			outs := ex.mayPanic(st, BNot(BAnd(Le(IC(0), idx), Lt(idx, bb.Len))), "index out of range at "+ex.pos(x.Pos()))
			if st.dead {
				return outs
			}
			fr.env[x] = Ptr{bb.Obj, ext(bb.Path, idxElem(st, IAdd(bb.Off, idx)))}
			return outs
		default:
			unsup("indexaddr of %T", base)
		}
	case *ssa.Index:
		idx := ex.term(fr, st, x.Index)
		v := ex.val(fr, st, x.X)
		switch a := v.(type) {
		case Arr:
			outs := ex.mayPanic(st, BNot(BAnd(Le(IC(0), idx), Lt(idx, IC(int64(len(a.E)))))), "index out of range at "+ex.pos(x.Pos()))
			if st.dead {
				return outs
			}
			fr.env[x] = getPath(a, []PathElem{idxElem(st, idx)}, st)
			return outs
		case Str:
			if s, ok := a.Const(); ok {
				if k, ok := st.constInt(idx); ok && k >= 0 && k < int64(len(s)) {
					fr.env[x] = IC(int64(s[k]))
					return nil
				}
			} else if k, ok := st.constInt(idx); ok && k >= 0 {
				if b := a.byteAt(int(k)); b != nil {
					fr.env[x] = b
					return nil
				}
			}
			unsup("index of symbolic string")
		}
		unsup("index of %T", v)
	case *ssa.Slice:
		return ex.sliceOp(fr, st, x)
	case *ssa.Extract:
		t := ex.val(fr, st, x.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			unsup("extract of %T", t)
		}
		fr.env[x] = tt[x.Index]
	case *ssa.MakeInterface:
		fr.env[x] = Iface{x.X.Type(), ex.val(fr, st, x.X)}
	case *ssa.ChangeInterface:
		fr.env[x] = ex.val(fr, st, x.X)
	case *ssa.ChangeType:
		fr.env[x] = ex.val(fr, st, x.X)
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, ex.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = ex.convert(st, ex.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := ex.val(fr, st, x.X).(Slice)
		if o, ok := st.constInt(s.Off); ok && o == 0 {
			fr.env[x] = Ptr{s.Obj, s.Path}
			return nil
		}
		unsup("slice to array pointer")
	case *ssa.MakeSlice:
		n := ex.term(fr, st, x.Len)
		c := ex.term(fr, st, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[x] = ex.makeSlice(st, et, n, c)
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, ex.val(fr, st, b))
		}
		fr.env[x] = f
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, x)
	case *ssa.MakeMap:
		fr.env[x] = st.alloc(x.Type(), Opq{"map", map[string]Val{"k": []Val{}, "v": []Val{}}})
	case *ssa.MapUpdate, *ssa.Lookup, *ssa.Range, *ssa.Next:
		ex.mapOp(fr, st, in)
	default:
		unsup("instruction %T at %s", in, ex.pos(in.Pos()))
	}
	return nil
}

func (ex *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	x := ex.val(fr, st, v)
	t, ok := x.(*Term)
	if !ok {
		unsup("expected scalar, got %T", x)
	}
	return t
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, c *Term) Slice {
	if k, ok := st.constInt(c); ok {
		if k > 200000 {
			unsup("huge slice")
		}
		a := Arr{make([]Val, k)}
		for i := range a.E {
			a.E[i] = zeroVal(et)
		}
		p := st.alloc(nil, a)
		return Slice{p.Obj, nil, IC(0), n, c}
	}
	p := st.alloc(nil, GenArr{Len: c, Idx: IVar("idx!", nil, nil), Gen: zeroVal(et)})
	return Slice{p.Obj, nil, IC(0), n, c}
}

func (ex *Exec) sliceOp(fr *Frame, st *State, x *ssa.Slice) []Outcome {
	base := ex.val(fr, st, x.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.term(fr, st, v)
	}
	var s Slice
	switch b := base.(type) {
	case Ptr:
		if b.Obj == 0 {
			s2 := st.clone()
			st.dead = true
			return []Outcome{{st: s2, panic: true, why: "nil dereference at " + ex.pos(x.Pos())}}
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem()
		n := IC(at.Underlying().(*types.Array).Len())
		s = Slice{b.Obj, b.Path, IC(0), n, n}
	case Slice:
		s = b
	case Str:
		c, ok := b.Const()
		if !ok {
			lo, ok1 := st.constInt(get(x.Low, IC(0)))
			hi, ok2 := st.constInt(get(x.High, IC(-1)))
			if ok1 && ok2 && lo >= 0 && (hi == -1 || hi >= lo) {
				if r, ok := b.sub(int(lo), int(hi)); ok {
					fr.env[x] = r
					return nil
				}
			}
			unsup("slice of symbolic string")
		}
		lo, ok1 := st.constInt(get(x.Low, IC(0)))
		hi, ok2 := st.constInt(get(x.High, IC(int64(len(c)))))
		if !ok1 || !ok2 || lo < 0 || hi > int64(len(c)) || lo > hi {
			unsup("string slice bounds")
		}
		fr.env[x] = strC(c[lo:hi])
		return nil
	default:
		unsup("slice of %T", base)
	}
	lo := get(x.Low, IC(0))
	hi := get(x.High, s.Len)
	mx := get(x.Max, s.Cap)
	outs := ex.mayPanic(st, BNot(BAnd(Le(IC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.Cap))), "slice bounds out of range at "+ex.pos(x.Pos()))
	if st.dead {
		return outs
	}
	fr.env[x] = Slice{s.Obj, s.Path, IAdd(s.Off, lo), ISub(hi, lo), ISub(mx, lo)}
	return outs
}

// elems reads the elements of a slice of concrete length.
func (ex *Exec) elems(st *State, v Val) []Val {
	s, ok := v.(Slice)
	if !ok {
		unsup("elements of %T", v)
	}
	n, ok := st.constInt(s.Len)
	if !ok {
		unsup("elements of a slice of symbolic length")
	}
	if n == 0 {
		return nil
	}
	out := make([]Val, n)
	for i := range out {
		out[i] = st.load(Ptr{s.Obj, ext(s.Path, idxElem(st, IAdd(s.Off, IC(int64(i)))))})
	}
	return out
}

// symSeq is a run of elements of symbolic length inside a byte sequence.
type symSeq struct {
	Len, Idx *Term
	Gen      Val
}

// seqElems is elems, with a slice of symbolic length kept as one symSeq.
func (ex *Exec) seqElems(st *State, v Val) []Val {
	s, ok := v.(Slice)
	if !ok {
		unsup("elements of %T", v)
	}
	if _, ok := st.constInt(s.Len); ok {
		return ex.elems(st, v)
	}
	k := IVar("@seq", nil, nil)
	return []Val{symSeq{s.Len, k, st.load(Ptr{s.Obj, ext(s.Path, PathElem{Sym: IAdd(s.Off, k)})})}}
}

// seqTerm: the uninterpreted encoding of gen(0), ..., gen(len-1).
func seqTerm(n, gen *Term) *Term { return UFInt("seq", big0, nil, canonT(n), canonT(gen)) }

func (ex *Exec) newSlice(st *State, es []Val) Slice {
	if len(es) == 0 {
		p := st.alloc(nil, Arr{})
		return Slice{p.Obj, nil, IC(0), IC(0), IC(0)}
	}
	p := st.alloc(nil, Arr{append([]Val{}, es...)})
	n := IC(int64(len(es)))
	return Slice{p.Obj, nil, IC(0), n, n}
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	s := func(bits uint) (*big.Int, *big.Int) {
		h := new(big.Int).Lsh(big1, bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
	}
	u := func(bits uint) (*big.Int, *big.Int) {
		return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, bits), big1)
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil
}

// wrapInt gives machine-integer semantics.
func wrapInt(t *Term, ty types.Type) *Term {
	lo, hi := intRange(ty)
	if lo == nil {
		return t
	}
	if within(t, lo, hi) {
		return t
	}
	if lo.Sign() == 0 {
		return IModC(t, new(big.Int).Add(hi, big1))
	}
	if t.IsC() {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big1)
		v := new(big.Int).Mod(new(big.Int).Sub(t.K, lo), m)
		return ICB(v.Add(v, lo))
	}
	return t // signed overflow of a symbolic value: treated as mathematical (see assumptions)
}

// wrap is wrapInt with the facts of the path: a value known to fit stays as it is.
func (st *State) wrap(t *Term, ty types.Type) *Term {
	r := wrapInt(t, ty)
	if r != t && !r.IsC() {
		if lo, hi := intRange(ty); st.decide(BAnd(Le(ICB(lo), t), Le(t, ICB(hi)))) == 1 {
			return t
		}
	}
	return r
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, ty, rty types.Type, pos string) (Val, []Outcome) {
	switch op {
	case token.EQL:
		if t := liftCmp(a, b, Eq); t != nil {
			return t, nil
		}
		return ex.valEq(st, a, b), nil
	case token.NEQ:
		if t := liftCmp(a, b, Eq); t != nil {
			return BNot(t), nil
		}
		return BNot(ex.valEq(st, a, b)), nil
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		if op == token.ADD {
			return strCat(sa, sb), nil
		}
		ca, ok1 := sa.Const()
		cb, ok2 := sb.Const()
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return BC(ca < cb), nil
			case token.GTR:
				return BC(ca > cb), nil
			case token.LEQ:
				return BC(ca <= cb), nil
			case token.GEQ:
				return BC(ca >= cb), nil
			}
		}
		unsup("string operator")
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T,%T", op, a, b)
	}
	if x.S == SBool {
		switch op {
		case token.AND, token.LAND:
			return BAnd(x, y), nil
		case token.OR, token.LOR:
			return BOr(x, y), nil
		}
	}
	switch op {
	case token.ADD:
		return st.wrap(IAdd(x, y), rty), nil
	case token.SUB:
		return st.wrap(ISub(x, y), rty), nil
	case token.MUL:
		return st.wrap(IMul(x, y), rty), nil
	case token.LSS:
		if t := liftCmp(x, y, func(x, y *Term) *Term { return Lt(x, y) }); t != nil {
			return t, nil
		}
		return Lt(x, y), nil
	case token.LEQ:
		if t := liftCmp(x, y, func(x, y *Term) *Term { return Le(x, y) }); t != nil {
			return t, nil
		}
		return Le(x, y), nil
	case token.GTR:
		if t := liftCmp(x, y, func(x, y *Term) *Term { return Lt(y, x) }); t != nil {
			return t, nil
		}
		return Lt(y, x), nil
	case token.GEQ:
		if t := liftCmp(x, y, func(x, y *Term) *Term { return Le(y, x) }); t != nil {
			return t, nil
		}
		return Le(y, x), nil
	case token.QUO, token.REM:
		var outs []Outcome
		outs = ex.mayPanic(st, Eq(y, IC(0)), "division by zero at "+pos)
		if st.dead {
			return nil, outs
		}
		if x.IsC() && y.IsC() {
			if op == token.QUO {
				return ICB(new(big.Int).Quo(x.K, y.K)), outs
			}
			return ICB(new(big.Int).Rem(x.K, y.K)), outs
		}
		if y.IsC() && y.K.Sign() > 0 && st.decide(Le(IC(0), x)) == 1 {
			if op == token.QUO {
				return IDivC(x, y.K), outs
			}
			return IModC(x, y.K), outs
		}
		unsup("symbolic division")
	case token.SHL:
		if k, ok := st.constInt(y); ok && k >= 0 && k < 10000 {
			return wrapInt(IMul(x, ICB(new(big.Int).Lsh(big1, uint(k)))), rty), nil
		}
		unsup("symbolic shift")
	case token.SHR:
		if k, ok := st.constInt(y); ok && k >= 0 && k < 10000 {
			return IDivC(x, new(big.Int).Lsh(big1, uint(k))), nil
		}
		unsup("symbolic shift")
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.IsC() && y.IsC() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(x.K, y.K)
			case token.OR:
				r.Or(x.K, y.K)
			case token.XOR:
				r.Xor(x.K, y.K)
			default:
				r.AndNot(x.K, y.K)
			}
			return ICB(r), nil
		}
		if op == token.AND {
			if x.IsC() {
				x, y = y, x
			}
			if y.IsC() && y.K.Sign() >= 0 { // mask 2^k-1
				m := new(big.Int).Add(y.K, big1)
				if m.BitLen() == y.K.BitLen()+1 && st.decide(Le(IC(0), x)) == 1 {
					return IModC(x, m), nil
				}
			}
		}
		unsup("symbolic bit operation")
	}
	unsup("binop %s", op)
	return nil, nil
}

// liftCmp pushes a comparison with a constant into an ite tree of constants.
func liftCmp(a, b Val, cmp func(x, y *Term) *Term) *Term {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 || x.S != SInt || y.S != SInt {
		return nil
	}
	var tree func(t *Term, d int) bool
	tree = func(t *Term, d int) bool {
		return t.IsC() || d < 4 && t.Op == "ite" && tree(t.Args[1], d+1) && tree(t.Args[2], d+1)
	}
	var go1 func(t *Term, f func(*Term) *Term) *Term
	go1 = func(t *Term, f func(*Term) *Term) *Term {
		if t.Op != "ite" {
			return f(t)
		}
		c, p, q := t.Args[0], go1(t.Args[1], f), go1(t.Args[2], f)
		return BOr(BAnd(c, p), BAnd(BNot(c), q))
	}
	if x.Op == "ite" && y.IsC() && tree(x, 0) {
		return go1(x, func(t *Term) *Term { return cmp(t, y) })
	}
	if y.Op == "ite" && x.IsC() && tree(y, 0) {
		return go1(y, func(t *Term) *Term { return cmp(x, t) })
	}
	return nil
}

// valEq is Go's ==.
func (ex *Exec) valEq(st *State, a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("== on term and %T", b)
		}
		return Eq(x, y)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			if _, ok := b.(SymPtr); ok && x.Obj == 0 {
				return FalseT
			}
			unsup("== on pointer and %T", b)
		}
		if x.Obj != y.Obj {
			return FalseT
		}
		if len(x.Path) != len(y.Path) {
			return FalseT
		}
		r := TrueT
		for i := range x.Path {
			r = BAnd(r, Eq(pe(x.Path[i]), pe(y.Path[i])))
		}
		return r
	case SymPtr:
		if y, ok := b.(Ptr); ok && y.Obj == 0 {
			return FalseT
		}
	case Slice:
		y := b.(Slice)
		if y.Obj == 0 {
			return BC(x.Obj == 0)
		}
		if x.Obj == 0 {
			return BC(y.Obj == 0)
		}
	case FuncV:
		y := b.(FuncV)
		if y.Fn == nil {
			return BC(x.Fn == nil)
		}
		if x.Fn == nil {
			return BC(y.Fn == nil)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("== on interface and %T", b)
		}
		if x.T == nil || y.T == nil {
			if x.T == nil && y.T == nil {
				return TrueT
			}
			// a symbolic error may be nil?
			return FalseT
		}
		if !types.Identical(x.T, y.T) {
			return FalseT
		}
		return ex.valEq(st, x.V, y.V)
	case Str:
		y := b.(Str)
		ca, ok1 := x.Const()
		cb, ok2 := y.Const()
		if ok1 && ok2 {
			return BC(ca == cb)
		}
		for _, p := range append(append([]StrPart{}, x.P...), y.P...) {
			if p.Any != "" {
				return Pred("streq", strTerm(x), strTerm(y))
			}
		}
		if ok2 && cb == "" || ok1 && ca == "" {
			return FalseT // symbolic strings are non-empty (hex/decimal digits)
		}
		if len(x.P) == 1 && len(y.P) == 1 {
			a, b := x.P[0], y.P[0]
			switch {
			case a.Dec != nil && b.Dec != nil:
				return Eq(a.Dec, b.Dec) // decimal notation is injective
			case a.Hex != nil && b.Hex != nil && a.NHex == b.NHex:
				return Eq(a.Hex, b.Hex)
			case a.Dec != nil && ok2, b.Dec != nil && ok1:
				c, d := cb, a.Dec
				if ok1 {
					c, d = ca, b.Dec
				}
				if n, ok := new(big.Int).SetString(c, 10); ok && n.String() == c {
					return Eq(d, ICB(n))
				}
				return FalseT
			}
		}
		return Pred("streq", strTerm(x), strTerm(y))
	case Struct:
		y := b.(Struct)
		r := TrueT
		for i := range x.F {
			r = BAnd(r, ex.valEq(st, x.F[i], y.F[i]))
		}
		return r
	case Arr:
		y := b.(Arr)
		r := TrueT
		for i := range x.E {
			r = BAnd(r, ex.valEq(st, x.E[i], y.E[i]))
		}
		return r
	case Opq:
		if y, ok := b.(Opq); ok && (x.Kind == "nilmap" || y.Kind == "nilmap") {
			return BC(x.Kind == y.Kind)
		}
	case ErrV:
		if y, ok := b.(ErrV); ok {
			return BC(x.Name == y.Name)
		}
		return FalseT
	}
	unsup("== on %T and %T", a, b)
	return nil
}

func strTerm(s Str) *Term {
	var as []*Term
	name := "str"
	for _, p := range s.P {
		switch {
		case p.Hex != nil:
			name += "|H"
			as = append(as, p.Hex)
		case p.Dec != nil:
			name += "|D"
			as = append(as, p.Dec)
		case p.Any != "":
			name += "|A" + p.Any
		default:
			name += "|" + p.C
		}
	}
	return UF(SOpq, name, as...)
}

func pe(p PathElem) *Term {
	if p.Sym != nil {
		return p.Sym
	}
	return IC(int64(p.I))
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	switch x := v.(type) {
	case *Term:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				lo, hi := intRange(to)
				flo, fhi := intRange(from)
				if lo != nil && lo.Sign() < 0 && !x.IsC() && !within(x, lo, hi) && (flo == nil || flo.Cmp(lo) < 0 || fhi.Cmp(hi) > 0) && st.decide(BAnd(Le(ICB(lo), x), Le(x, ICB(hi)))) != 1 {
					unsup("conversion of a symbolic integer that may not fit %s", to)
				}
				return st.wrap(x, to)
			}
			if b.Info()&types.IsString != 0 && x.IsC() {
				return strC(string(rune(x.K.Int64())))
			}
		}
	case Str:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			_ = sl
			c, ok := x.Const()
			if ok {
				var es []Val
				for i := 0; i < len(c); i++ {
					es = append(es, IC(int64(c[i])))
				}
				return ex.newSlice(st, es)
			}
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x
		}
	case Slice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var sb strings.Builder
			for _, e := range ex.elems(st, x) {
				t, ok := e.(*Term)
				if !ok || !t.IsC() {
					unsup("string of symbolic bytes")
				}
				sb.WriteByte(byte(t.K.Int64()))
			}
			return strC(sb.String())
		}
		return x
	case Ptr:
		return x
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []Outcome {
	v := ex.val(fr, st, x.X)
	f, ok := v.(Iface)
	if !ok {
		unsup("type assertion on %T", v)
	}
	match := false
	if f.T != nil {
		if o, isO := f.V.(Opq); isO && o.Kind == "circuitvar" {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); ex.mode == Compile && !x.CommaOk && !isI {
				ex.hit("assertion of " + originOf(f) + " to " + shortType(x.AssertedType))
				if shortType(x.AssertedType) == "*big.Int" {
					fr.env[x] = ex.newBig(st, IVar(freshName("concrete!"), big0, rMinus1))
				} else {
					fr.env[x] = ex.fresh(st, "assert", x.AssertedType)
				}
				return nil
			}
		}
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(f.T, it) || it.NumMethods() == 0
			if _, isErr := f.V.(ErrV); isErr && types.Identical(x.AssertedType, types.Universe.Lookup("error").Type()) {
				match = true
			}
		} else {
			match = types.Identical(f.T, x.AssertedType)
		}
	}
	var r Val
	if match {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			r = f
		} else {
			r = f.V
		}
	} else {
		r = zeroVal(x.AssertedType)
		if !x.CommaOk {
			s2 := st.clone()
			st.dead = true
			return []Outcome{{st: s2, panic: true, why: "failed type assertion at " + ex.pos(x.Pos())}}
		}
	}
	if x.CommaOk {
		fr.env[x] = Tuple{r, BC(match)}
	} else {
		fr.env[x] = r
	}
	return nil
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (ex *Exec) mapOp(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Lookup:
		if s, ok := ex.val(fr, st, x.X).(Str); ok {
			c, ok1 := s.Const()
			k, ok2 := st.constInt(ex.val(fr, st, x.Index))
			if ok1 && ok2 && k >= 0 && k < int64(len(c)) {
				fr.env[x] = IC(int64(c[k]))
				return
			}
			if !ok1 && ok2 && k >= 0 {
				if b := s.byteAt(int(k)); b != nil {
					fr.env[x] = b
					return
				}
			}
			unsup("index of a symbolic string")
		}
		p, ok := ex.val(fr, st, x.X).(Ptr)
		if !ok {
			unsup("map lookup")
		}
		o := st.load(p).(Opq)
		ks, vs := o.D["k"].([]Val), o.D["v"].([]Val)
		key := ex.val(fr, st, x.Index)
		for i := len(ks) - 1; i >= 0; i-- {
			switch st.decide(ex.valEq(st, ks[i], key)) {
			case 1:
				if x.CommaOk {
					fr.env[x] = Tuple{vs[i], TrueT}
				} else {
					fr.env[x] = vs[i]
				}
				return
			case 0:
				unsup("symbolic map key")
			}
		}
		z := zeroVal(x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			fr.env[x] = Tuple{z, FalseT}
		} else {
			fr.env[x] = z
		}
	case *ssa.MapUpdate:
		p, ok := ex.val(fr, st, x.Map).(Ptr)
		if !ok {
			unsup("map update")
		}
		o := st.load(p).(Opq)
		ks := append(append([]Val{}, o.D["k"].([]Val)...), ex.val(fr, st, x.Key))
		vs := append(append([]Val{}, o.D["v"].([]Val)...), ex.val(fr, st, x.Value))
		st.store(p, Opq{"map", map[string]Val{"k": ks, "v": vs}})
	default:
		unsup("map iteration")
	}
}

// ---------- calls ----------

type CallInfo struct {
	fn   *ssa.Function
	pos  token.Pos
	name string
	recv types.Type
	inst ssa.Value
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

func (ex *Exec) callee(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(fr, st, a))
	}
	return ex.val(fr, st, c.Value), args
}

func (ex *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, v *ssa.Call) []Outcome {
	if c.IsInvoke() {
		recv := ex.val(fr, st, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, ex.val(fr, st, a))
		}
		return ex.invoke(st, recv, c, args, v.Pos())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range c.Args {
			args = append(args, ex.val(fr, st, a))
		}
		return ex.builtin(st, b.Name(), args, c, v.Pos())
	}
	fv, args := ex.callee(fr, st, c)
	return ex.callVal(st, fv, args, v.Pos())
}

func (ex *Exec) callVal(st *State, fv Val, args []Val, pos token.Pos) []Outcome {
	f, ok := fv.(FuncV)
	if !ok || f.Fn == nil {
		unsup("call of %T", fv)
	}
	return ex.call(st, f.Fn, args, f.Bind, pos)
}

func (ex *Exec) invoke(st *State, recv Val, c *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	f, ok := recv.(Iface)
	if !ok {
		unsup("invoke on %T", recv)
	}
	if f.T == nil {
		s2 := st.clone()
		st.dead = true
		return []Outcome{{st: s2, panic: true, why: "nil interface call at " + ex.pos(pos)}}
	}
	m := c.Method
	if o, ok := f.V.(Opq); ok && (o.Kind == "api" || o.Kind == "compiler") {
		sig := m.Type().(*types.Signature)
		ci := &CallInfo{pos: pos, name: m.Name()}
		if ex.abs() {
			if outs, ok := ex.absAPI(st, m.Name(), sig, args, ci); ok {
				return outs
			}
		}
		h, ok := apiMethods[m.Name()]
		if !ok {
			unsup("API method %s", m.Name())
		}
		return ex.mayFail(st, sig, m.Name(), ex.pos(pos), func(s *State) []Outcome { return h(ex, s, args, ci) })
	}
	if e, ok := f.V.(ErrV); ok && m.Name() == "Error" {
		return one(st, Str{[]StrPart{{C: "error:" + e.Name}}})
	}
	if p, ok := f.V.(Ptr); ok && p.Obj != 0 {
		if o, ok := st.load(p).(Opq); ok {
			if h, ok := objMethods[o.Kind+"."+m.Name()]; ok {
				trustedUsed[o.Kind+"."+m.Name()]++
				return ex.mayFail(st, m.Type().(*types.Signature), o.Kind+"."+m.Name(), ex.pos(pos), func(s *State) []Outcome {
					return h(ex, s, append([]Val{p}, args...), &CallInfo{pos: pos, name: m.Name()})
				})
			}
		}
	}
	// concrete type known: dispatch
	ms := ex.prog.MethodSets.MethodSet(f.T)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel != nil {
		fn := ex.prog.MethodValue(sel)
		if fn != nil {
			return ex.call(st, fn, append([]Val{f.V}, args...), nil, pos)
		}
	}
	unsup("interface method %s on %s", m.FullName(), f.T)
	return nil
}

func one(st *State, v Val) []Outcome { return []Outcome{{st: st, ret: v}} }

func (ex *Exec) builtin(st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) []Outcome {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if name == "cap" {
				return one(st, x.Cap)
			}
			return one(st, x.Len)
		case Str:
			if s, ok := x.Const(); ok {
				return one(st, IC(int64(len(s))))
			}
			n := 0
			for _, p := range x.P {
				if p.width() < 0 {
					unsup("len of a string of unknown width")
				}
				if p.Hex != nil {
					n += p.NHex
				}
				n += len(p.C)
			}
			return one(st, IC(int64(n)))
		case Arr:
			return one(st, IC(int64(len(x.E))))
		case Ptr:
			if a, ok := st.load(x).(Arr); ok {
				return one(st, IC(int64(len(a.E))))
			}
			if o, ok := st.load(x).(Opq); ok && o.Kind == "map" {
				unsup("len of map")
			}
		}
		unsup("len of %T", args[0])
	case "append":
		return ex.appendOp(st, args, c)
	case "copy":
		d := args[0].(Slice)
		if s, ok := args[1].(Slice); ok {
			_, ok1 := st.constInt(s.Len)
			dn, ok := st.constInt(d.Len)
			if !ok || !ok1 {
				n := s.Len
				switch st.decide(Le(s.Len, d.Len)) {
				case 0:
					unsup("copy between slices of unrelated symbolic lengths")
				case -1:
					n = d.Len
				}
				ex.copyRange(st, d, IC(0), s, n)
				return one(st, n)
			}
			src := ex.elems(st, s)
			n := int64(len(src))
			if dn < n {
				n = dn
			}
			for i := int64(0); i < n; i++ {
				st.store(Ptr{d.Obj, ext(d.Path, idxElem(st, IAdd(d.Off, IC(i))))}, src[i])
			}
			return one(st, IC(n))
		}
		unsup("copy")
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			c := Le(r, t)
			if name == "max" {
				c = Le(t, r)
			}
			switch st.decide(c) {
			case 1:
			case -1:
				r = t
			default:
				r = IIte(c, r, t)
			}
		}
		return one(st, r)
	case "panic":
		return []Outcome{{st: st, panic: true, why: "panic at " + ex.pos(pos)}}
	case "print", "println":
		return one(st, nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == 0 {
			return []Outcome{{st: st, panic: true, why: "nil receiver at " + ex.pos(pos)}}
		}
		return one(st, args[0])
	case "recover":
		return one(st, Iface{})
	}
	unsup("builtin %s", name)
	return nil
}

// growSlice appends concrete elements, or a slice of symbolic length, to d.
func (ex *Exec) growSlice(st *State, d Slice, add []Val, more *Slice) Slice {
	m := IC(int64(len(add)))
	if more != nil {
		m = more.Len
	}
	total := IAdd(d.Len, m)
	fits := -1
	if d.Obj != 0 {
		fits = st.decide(Le(total, d.Cap))
	}
	if fits == 1 {
		if more != nil {
			ex.copyRange(st, d, d.Len, *more, m)
		}
		for i, v := range add {
			st.store(Ptr{d.Obj, ext(d.Path, idxElem(st, IAdd(d.Off, IAdd(d.Len, IC(int64(i))))))}, v)
		}
		return Slice{d.Obj, d.Path, d.Off, total, d.Cap}
	}
	g := GenArr{Len: total, Idx: IVar(freshName("idx!"), nil, nil)}
	capT := IVar(freshName("cap!"), big0, nil)
	p := st.alloc(nil, g)
	r := Slice{p.Obj, nil, IC(0), total, capT}
	if d.Obj != 0 {
		if o, ok := st.heap[d.Obj].V.(GenArr); ok && len(d.Path) == 0 && d.Off.IsC() && d.Off.K.Sign() == 0 {
			st.store(p, GenArr{Len: total, Idx: o.Idx, Gen: o.Gen, Writes: append([]GWrite{}, o.Writes...)})
		} else {
			ex.copyRange(st, r, IC(0), d, d.Len)
		}
		if fits == 0 {
			// the old array may or may not be shared with the result: it must
			// not be used any more
			n := *st.heap[d.Obj]
			n.V = nil
			st.heap[d.Obj] = &n
		}
	}
	if more != nil {
		ex.copyRange(st, r, d.Len, *more, m)
	}
	for i, v := range add {
		st.store(Ptr{p.Obj, []PathElem{idxElem(st, IAdd(d.Len, IC(int64(i))))}}, v)
	}
	st.assume(Le(total, capT))
	return r
}

// copyRange copies n elements of s to d[at:at+n].
func (ex *Exec) copyRange(st *State, d Slice, at *Term, s Slice, n *Term) {
	if k, ok := st.constInt(n); ok {
		var vs []Val
		for i := int64(0); i < k; i++ {
			vs = append(vs, st.load(Ptr{s.Obj, ext(s.Path, idxElem(st, IAdd(s.Off, IC(i))))}))
		}
		for i, v := range vs {
			st.store(Ptr{d.Obj, ext(d.Path, idxElem(st, IAdd(d.Off, IAdd(at, IC(int64(i))))))}, v)
		}
		return
	}
	g, ok := getPath(st.heap[d.Obj].V, d.Path, st).(GenArr)
	if !ok {
		unsup("copy of a symbolic number of elements into a concrete array")
	}
	lo := IAdd(d.Off, at)
	hi := IAdd(lo, n)
	idx := IVar(freshName("ci!"), nil, nil)
	s2 := st.clone()
	s2.assume(Le(lo, idx))
	s2.assume(Lt(idx, hi))
	v := s2.load(Ptr{s.Obj, ext(s.Path, PathElem{Sym: IAdd(s.Off, ISub(idx, lo))})})
	w := append(append([]GWrite{}, g.Writes...), GWrite{Lo: lo, Hi: hi, K: idx, V: v})
	st.store(Ptr{d.Obj, d.Path}, GenArr{g.Len, g.Idx, g.Gen, w})
}

func (ex *Exec) appendOp(st *State, args []Val, c *ssa.CallCommon) []Outcome {
	d, ok := args[0].(Slice)
	if !ok {
		unsup("append to %T", args[0])
	}
	var add []Val
	switch s := args[1].(type) {
	case Slice:
		if _, ok := st.constInt(s.Len); !ok {
			return one(st, ex.growSlice(st, d, nil, &s))
		}
		add = ex.elems(st, s)
	case Str:
		cs, ok := s.Const()
		if !ok {
			unsup("append of symbolic string")
		}
		for i := 0; i < len(cs); i++ {
			add = append(add, IC(int64(cs[i])))
		}
	}
	if len(add) == 0 {
		return one(st, d)
	}
	n, ok1 := st.constInt(d.Len)
	cp, ok2 := st.constInt(d.Cap)
	if !ok1 || !ok2 {
		return one(st, ex.growSlice(st, d, add, nil))
	}
	if n+int64(len(add)) <= cp && d.Obj != 0 {
		for i, v := range add {
			st.store(Ptr{d.Obj, ext(d.Path, idxElem(st, IAdd(d.Off, IC(n+int64(i)))))}, v)
		}
		return one(st, Slice{d.Obj, d.Path, d.Off, IC(n + int64(len(add))), d.Cap})
	}
	var cur []Val
	if d.Obj != 0 {
		cur = ex.elems(st, d)
	}
	total := int(n) + len(add)
	nc := total
	if nc < 2*int(cp) {
		nc = 2 * int(cp)
	}
	a := Arr{make([]Val, nc)}
	copy(a.E, cur)
	copy(a.E[n:], add)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	for i := total; i < nc; i++ {
		a.E[i] = zeroVal(et)
	}
	p := st.alloc(nil, a)
	return one(st, Slice{p.Obj, nil, IC(0), IC(int64(total)), IC(int64(nc))})
}
