package main

// Verification of a function against its contract, and use of contracts at
// call sites.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of one obligation.
type OblRes struct {
	Func   string
	Kind   string // ensures, onerr, frame, accepts, reachable, requires, unsupported
	Labels []string
	Src    string
	Where  string
	Case   string
	OK     bool
	Detail string
	Back   string
	Dur    time.Duration
}

type Verifier struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	globals  map[*ssa.Global]int
	dirty    map[*ssa.Global]string
	init     *State
	regs     map[string]bool
	ntypes   map[string]types.Type
	apiType  types.Type
	opaque   types.Type
	funcs    map[string]*ssa.Function
	results  []OblRes
	unsup    []OblRes
	applied  map[string]int
	inlined  map[string]int
	notes    map[string]bool
	disable  map[string]bool // contracts not to be used at calls
	verbose  bool
	verified []string
	start    time.Time
	limit    time.Duration
	cur      string
}

func (v *Verifier) newExec(mode Mode) *Exec {
	ex := &Exec{prog: v.prog, pkg: v.pkg, mode: mode, globals: v.globals, dirty: v.dirty, applied: v.applied, inlined: v.inlined,
		maxPaths: 4000, fieldMod: modR, compileHits: map[string]bool{}, notes: v.notes,
		ntypes: v.ntypes, apiType: v.apiType, opaquePtr: v.opaque, hintsUsed: map[string]bool{}, registered: v.regs}
	ex.deadline = func() bool { return v.limit > 0 && time.Since(v.start) > v.limit }
	if mode == Sound {
		ex.useContract = func(fn *ssa.Function) *Contract {
			k := funcKey(fn)
			c := contracts[k]
			if c == nil || c.NoCall || v.disable[k] || c.status < 0 || v.cur == k {
				return nil
			}
			if c.status == 0 {
				// verified before use, so that a failing contract is never relied on
				v.Verify(k)
				if c.status < 0 {
					return nil
				}
			}
			return c
		}
	}
	return ex
}

// entry-state construction -------------------------------------------------

type entry struct {
	v     *Verifier
	ex    *Exec
	st    *State
	c     *Contract
	cases map[string]string
}

func (e *entry) shape(path string) string {
	if s, ok := e.cases[path]; ok {
		return s
	}
	return e.c.Shapes[path]
}

func (e *entry) build(path string, t types.Type) Val {
	sh := e.shape(path)
	if strings.HasPrefix(sh, "=") { // a constant
		b, ok := t.Underlying().(*types.Basic)
		s := sh[1:]
		if ok && b.Info()&types.IsString != 0 {
			u, err := strconv.Unquote(s)
			if err != nil {
				u = s
			}
			return strC(u)
		}
		n, ok2 := new(big.Int).SetString(s, 0)
		if !ok2 {
			unsup("bad constant shape %s", sh)
		}
		if typeKey(t) == pG+"/frontend.Variable" {
			return e.ex.newVar(e.st, ICB(n))
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && abstractScalar(p.Elem()) != "" {
			return e.st.alloc(p.Elem(), ICB(n))
		}
		return ICB(n)
	}
	if sh == "nil" {
		return zeroVal(t)
	}
	k := typeKey(t)
	switch k {
	case pG + "/frontend.API":
		return Iface{e.ex.apiType, Opq{"api", nil}}
	case pG + "/frontend.Variable":
		return e.variable(path, sh)
	}
	switch abstractScalar(t) {
	case "big":
		return e.bigVar(path, sh)
	case "fp":
		return IVar(path, big0, pMinus1)
	case "fr":
		return FInt(FVar(path))
	case "emul":
		var m *big.Int
		if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs().Len() > 0 {
			m = emulModulus(n.TypeArgs().At(0))
		}
		if m == nil {
			m = new(big.Int).Set(modP)
			if _, isTP := t.(*types.Named).TypeArgs().At(0).(*types.TypeParam); isTP {
				unsup("uninstantiated type parameter")
			}
			unsup("emulated field of %s", t)
		}
		return IVar(path, big0, new(big.Int).Sub(m, big1))
	}
	if o := opaqueType(t); o != "" {
		unsup("entry value of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mk("var", SBool, path, nil, 0, 0)
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			return IVar(path, lo, hi)
		case u.Info()&types.IsString != 0:
			switch {
			case strings.HasPrefix(sh, "hex"): // hexN: N hex digits of a free number
				n, _ := strconv.Atoi(sh[3:])
				return Str{[]StrPart{{Hex: IVar(path, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(4*n)), big1)), NHex: n}}}
			case strings.HasPrefix(sh, "0xhex"):
				n, _ := strconv.Atoi(sh[5:])
				return Str{[]StrPart{{C: "0x"}, {Hex: IVar(path, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(4*n)), big1)), NHex: n}}}
			case sh == "text": // any text that does not begin with 0x
				return Str{[]StrPart{{Any: path, Not: "0x"}}}
			case sh == "0xtext": // 0x, then any text
				return Str{[]StrPart{{C: "0x"}, {Any: path}}}
			case strings.HasPrefix(sh, "g1str"):
				b := new(big.Int).Sub(new(big.Int).Lsh(big1, 256), big1)
				return Str{[]StrPart{{C: "bn256.G1("}, {Hex: IVar(path+".x", big0, b), NHex: 64}, {C: ", "}, {Hex: IVar(path+".y", big0, b), NHex: 64}, {C: ")"}}}
			}
			unsup("string parameter %s needs a shape", path)
		}
	case *types.Pointer:
		if sh == "ptrnil" {
			return Ptr{}
		}
		p := e.st.alloc(u.Elem(), nil)
		v := e.build(path, u.Elem())
		e.st.heap[p.Obj] = &Obj{T: u.Elem(), V: v, Entry: path}
		return p
	case *types.Struct:
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.F {
			f := u.Field(i)
			if typeKey(t) == pG+"/std/math/uints.U8" && f.Name() == "internal" {
				s.F[i] = FalseT
				continue
			}
			if pkgOf(t) != "" && !strings.HasSuffix(pkgOf(t), "main") && !f.Exported() && !strings.Contains(pkgOf(t), "sw_bn254") && pkgOf(t) != e.v.pkg.Pkg.Path() {
				s.F[i] = zeroVal(f.Type())
				continue
			}
			s.F[i] = e.build(path+"."+f.Name(), f.Type())
		}
		return s
	case *types.Array:
		a := Arr{make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = e.build(fmt.Sprintf("%s[%d]", path, i), u.Elem())
			if esh := e.shape(path); esh == "field" {
				a.E[i] = e.variable(fmt.Sprintf("%s[%d]", path, i), "field")
			}
		}
		return a
	case *types.Slice:
		return e.slice(path, sh, u.Elem())
	case *types.Interface:
		if sh == "nil" {
			return Iface{}
		}
	case *types.Signature:
		unsup("function-valued parameter %s", path)
	}
	unsup("entry value of %s (%s)", path, t)
	return nil
}

func pkgOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (e *entry) bigVar(path, sh string) *Term {
	switch sh {
	case "nat":
		return IVar(path, big0, nil)
	case "int":
		return IVar(path, nil, nil)
	case "field":
		return FInt(FVar(path))
	case "fp":
		return IVar(path, big0, pMinus1)
	case "byte":
		return IVar(path, big0, big.NewInt(255))
	}
	return IVar(path, big0, max256)
}

func (e *entry) variable(path, sh string) Val {
	if e.ex.mode == Compile && sh != "int" {
		return e.ex.circuitVarOf(path)
	}
	p := e.st.alloc(e.ex.bigType(), nil)
	e.st.heap[p.Obj] = &Obj{T: e.ex.bigType(), V: e.bigVar(path, sh), Entry: path}
	return Iface{e.ex.bigPtrType(), p}
}

// slice shapes: "n" fixed length, "*" symbolic length; an optional element
// shape follows after a blank.
func (e *entry) slice(path, sh string, et types.Type) Val {
	f := strings.Fields(sh)
	n := "*"
	esh := ""
	if len(f) > 0 {
		n = f[0]
	}
	if len(f) > 1 {
		esh = f[1]
	}
	if n != "*" {
		k, err := strconv.Atoi(n)
		if err != nil {
			unsup("slice shape %q", sh)
		}
		a := Arr{make([]Val, k)}
		for i := range a.E {
			p := fmt.Sprintf("%s[%d]", path, i)
			if esh != "" {
				e.c.Shapes[p] = esh
			}
			a.E[i] = e.build(p, et)
		}
		p := e.st.alloc(nil, nil)
		e.st.heap[p.Obj] = &Obj{V: a, Entry: path}
		return Slice{p.Obj, nil, IC(0), IC(int64(k)), IC(int64(k))}
	}
	ln := IVar("len_"+path, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, 31), big1))
	idx := IVar("idx_"+path, nil, nil)
	p := e.st.alloc(nil, nil)
	gen := e.gen(path, esh, et, idx)
	e.st.heap[p.Obj] = &Obj{V: GenArr{Len: ln, Idx: idx, Gen: gen}, Entry: path}
	return Slice{p.Obj, nil, IC(0), ln, ln}
}

func ufBounded(name string, lo, hi *big.Int, idx *Term) *Term { return UFInt(name, lo, hi, idx) }

// gen is the generic element of a symbolic-length slice
func (e *entry) gen(path, esh string, et types.Type, idx *Term) Val {
	switch typeKey(et) {
	case pG + "/frontend.Variable":
		if e.ex.mode == Compile {
			return e.ex.circuitVarOf(path)
		}
		if esh == "field" {
			return Iface{e.ex.bigPtrType(), SymPtr{FInt(UF(SFld, path+"@", idx))}}
		}
		return Iface{e.ex.bigPtrType(), SymPtr{UFInt(path+"@", big0, max256, idx)}}
	}
	switch abstractScalar(et) {
	case "emul":
		n := types.Unalias(et).(*types.Named)
		m := emulModulus(n.TypeArgs().At(0))
		if m == nil {
			unsup("emulated field")
		}
		return UFInt(path+"@", big0, new(big.Int).Sub(m, big1), idx)
	case "big":
		return UFInt(path+"@", big0, max256, idx)
	}
	switch u := et.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(et)
			return UFInt(path+"@", lo, hi, idx)
		}
	case *types.Pointer:
		return SymPtr{e.gen(path, esh, u.Elem(), idx)}
	case *types.Struct:
		if typeKey(et) == pG+"/std/math/uints.U8" {
			return Struct{[]Val{e.gen(path, esh, u.Field(0).Type(), idx), FalseT}}
		}
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.gen(path+"."+u.Field(i).Name(), esh, u.Field(i).Type(), idx)
		}
		return s
	}
	unsup("symbolic slice of %s", et)
	return nil
}

// --------------------------------------------------------------------------

func (v *Verifier) add(r OblRes) {
	if v.verbose {
		s := "ok  "
		if !r.OK {
			s = "FAIL"
		}
		fmt.Fprintf(os.Stderr, "  %s %s %s %v %s {%s} %s\n", s, r.Func, r.Kind, r.Labels, r.Src, r.Case, r.Detail)
	}
	v.results = append(v.results, r)
}

func catchSpec(f func()) (err string, unsupported bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				err = "spec: " + x.msg
			case Unsupported:
				err = x.Msg
				unsupported = true
			case tooBig:
				err = "polynomial too large"
				unsupported = true
			default:
				panic(r)
			}
		}
	}()
	f()
	return
}

func (v *Verifier) caseList(c *Contract) []map[string]string {
	out := []map[string]string{{}}
	var ks []string
	for k := range c.Cases {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var n []map[string]string
		for _, m := range out {
			for _, val := range c.Cases[k] {
				m2 := map[string]string{k: val}
				for a, b := range m {
					m2[a] = b
				}
				n = append(n, m2)
			}
		}
		out = n
	}
	return out
}

func caseName(m map[string]string) string {
	var s []string
	for k, x := range m {
		s = append(s, k+" "+x)
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// Verify checks every clause of the contract of function key.
func (v *Verifier) Verify(key string) {
	c := contracts[key]
	if c == nil || c.status != 0 {
		return
	}
	c.status = 1
	fn := v.funcs[strings.SplitN(key, "#", 2)[0]] // name#tag: a further contract of name
	if fn == nil {
		c.status = -1
		v.notes["contract for "+key+" not applicable: no such function (its callers are verified with their bodies)"] = true
		return
	}
	if len(fn.Params) != len(c.Params) || fn.Signature.Results().Len() != len(c.Results) {
		c.status = -1
		v.notes["contract for "+key+" not applicable: signature changed"] = true
		return
	}
	saved, savedSeq := v.cur, varSeq
	v.cur = key
	defer func() { v.cur, varSeq = saved, savedSeq }()
	n0 := len(v.results)
	for _, cs := range v.caseList(c) {
		if len(c.Ensures) > 0 || len(c.OnErr) > 0 || len(c.Rejects) > 0 || len(c.FrameLb) > 0 {
			v.verifyCase(c, fn, cs, Sound)
		}
		if len(c.Accepts) > 0 {
			v.verifyCase(c, fn, cs, Complete)
		}
	}
	c.status = 2
	for _, r := range v.results[n0:] {
		if r.Func == key && !r.OK {
			c.status = -1
		}
	}
	for _, r := range v.unsup {
		if r.Func == key {
			c.status = -1
		}
	}
	if c.status == 2 {
		v.verified = append(v.verified, key)
	}
}

func (v *Verifier) markUnsup(c *Contract, mode Mode, cs, msg string) {
	lb := map[string]bool{}
	if mode == Complete {
		for _, x := range c.Accepts {
			for _, l := range x.Labels {
				lb[l] = true
			}
		}
	} else {
		for _, xs := range [][]Clause{c.Ensures, c.OnErr, c.Rejects} {
			for _, x := range xs {
				for _, l := range x.Labels {
					lb[l] = true
				}
			}
		}
		for _, l := range c.FrameLb {
			lb[l] = true
		}
	}
	var ls []string
	for l := range lb {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	if v.verbose {
		fmt.Fprintf(os.Stderr, "  UNSUP %s (%s) {%s}: %s\n", c.Key, mode, cs, msg)
	}
	v.unsup = append(v.unsup, OblRes{Func: c.Key, Kind: "unsupported", Labels: ls, Case: cs, Detail: msg, Src: mode.String()})
}

func errIndex(fn *ssa.Function) int {
	n := fn.Signature.Results().Len()
	if n == 0 {
		return -1
	}
	if types.Identical(fn.Signature.Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		return n - 1
	}
	return -1
}

func resVals(fn *ssa.Function, ret Val) []Val {
	switch fn.Signature.Results().Len() {
	case 0:
		return nil
	case 1:
		return []Val{ret}
	}
	return ret.(Tuple)
}

func (v *Verifier) bindVars(c *Contract, fn *ssa.Function, args []Val) map[string]interface{} {
	m := map[string]interface{}{}
	for i, p := range c.Params {
		m[p] = mkTyped(args[i], fn.Params[i].Type())
	}
	return m
}

func (v *Verifier) verifyCase(c *Contract, fn *ssa.Function, cs map[string]string, mode Mode) {
	t0 := time.Now()
	cname := caseName(cs)
	if mode == Complete {
		cname = strings.TrimSpace("honest " + cname)
	}
	var outs []Outcome
	var pre *State
	ex := v.newExec(mode)
	ex.cur = c.Key
	ex.assumeNonExceptional = c.Hyp
	varSeq = map[string]int{}
	var args []Val
	if mode == Complete {
		for _, a := range c.Accepts {
			v.verifyAccept(c, fn, cs, cname, a)
		}
		return
	}
	msg, _ := catchSpec(func() {
		st := v.init.clone()
		e := &entry{v, ex, st, c, cs}
		for i, p := range fn.Params {
			args = append(args, e.build(c.Params[i], p.Type()))
		}
		env := &Env{ex: ex, pre: st, post: st, cur: st, vars: v.bindVars(c, fn, args)}
		for _, r := range c.Requires {
			st.assume(env.Bool(r.E))
		}
		pre = st.clone()
		if st.dead {
			sfail("precondition is contradictory")
		}
		outs = ex.runFn(st, fn, args, nil)
		if fn.Name() == "main" && fn.Signature.Recv() == nil {
			for i := range outs {
				outs[i].panic = outs[i].panic && !outs[i].exit0
			}
		}
	})
	if msg != "" {
		v.markUnsup(c, mode, cname, msg)
		return
	}
	ei := errIndex(fn)
	okOuts := 0
	type agg struct {
		ok     bool
		detail string
	}
	check := func(kind string, cl Clause, goals func(o Outcome) bool) {
		ts := time.Now()
		good := true
		detail := ""
		for _, o := range outs {
			if o.panic || o.st.dead || !goals(o) {
				continue
			}
			env := &Env{ex: ex, pre: pre, post: o.st, cur: o.st, vars: v.bindVars(c, fn, args)}
			for i, r := range resVals(fn, o.ret) {
				env.vars[c.Results[i]] = mkTyped(r, fn.Signature.Results().At(i).Type())
			}
			st2 := o.st
			var d int
			m, un := catchSpec(func() {
				goal := cl.E
				if call, ok := goal.(*ast.CallExpr); ok && len(call.Args) == 2 {
					if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "implies" {
						// prove the conclusion in a state where the premise holds
						st2 = st2.clone()
						env.cur, env.post = st2, st2
						env.assumeEach(call.Args[0])
						goal = call.Args[1]
						if st2.dead {
							d = 1
							return
						}
					}
				}
				g := env.Bool(goal)
				d = v.prove(st2, g)
				if d != 1 {
					detail = "cannot establish " + trunc(g.str(4), 600) + st2.explain(g)
				}
			})
			if m != "" {
				if un {
					v.markUnsup(c, mode, cname, cl.Src+": "+m)
					return
				}
				detail = m
				d = 0
			}
			if d != 1 {
				good = false
				detail += pathOf(o.st)
				break
			}
		}
		v.add(OblRes{Func: c.Key, Kind: kind, Labels: cl.Labels, Src: cl.Src, Where: cl.Line, Case: cname, OK: good, Detail: detail, Dur: time.Since(ts)})
	}
	isOK := func(o Outcome) bool {
		if ei < 0 {
			return true
		}
		f, _ := resVals(fn, o.ret)[ei].(Iface)
		return f.T == nil
	}
	for _, o := range outs {
		if !o.panic && !o.st.dead && isOK(o) {
			okOuts++
		}
	}
	for _, cl := range c.Rejects {
		r := OblRes{Func: c.Key, Kind: "rejects", Labels: cl.Labels, Src: cl.Src, Where: cl.Line, Case: cname, OK: true, Dur: time.Since(t0)}
		for _, o := range outs {
			if !o.panic && !o.st.dead && isOK(o) {
				env := &Env{ex: ex, pre: pre, post: o.st, cur: o.st, vars: v.bindVars(c, fn, args)}
				m, un := catchSpec(func() {
					if v.prove(o.st, BNot(env.Bool(cl.E))) != 1 {
						r.OK, r.Detail = false, "accepted"+pathOf(o.st)
					}
				})
				if m != "" {
					if un {
						v.markUnsup(c, mode, cname, cl.Src+": "+m)
					}
					r.OK, r.Detail = false, m
				}
			}
		}
		v.add(r)
	}
	if len(c.Rejects) > 0 && len(c.Ensures)+len(c.OnErr)+len(c.FrameLb) == 0 {
		return
	}
	if okOuts == 0 {
		v.add(OblRes{Func: c.Key, Kind: "reachable", Labels: sortedKeys(c.allLabels()), Src: "some execution returns normally", Case: cname, OK: false, Detail: "every execution fails: " + whyNot(outs), Dur: time.Since(t0)})
		return
	}
	if v.verbose {
		fmt.Fprintf(os.Stderr, "  %s {%s}: %d outcomes, %d normal, %.2fs\n", c.Key, cname, len(outs), okOuts, time.Since(t0).Seconds())
	}
	for _, cl := range c.Ensures {
		check("ensures", cl, isOK)
	}
	for _, cl := range c.OnErr {
		check("onerr", cl, func(o Outcome) bool { return !isOK(o) })
	}
	if c.NeverErr && ei >= 0 {
		good := true
		for _, o := range outs {
			if !o.panic && !o.st.dead && !isOK(o) {
				good = false
			}
		}
		v.add(OblRes{Func: c.Key, Kind: "ensures", Labels: c.FrameLb, Src: "never returns an error", Case: cname, OK: good})
	}
	// frame
	ts := time.Now()
	bad := ""
	msg, un := catchSpec(func() {
		for _, o := range outs {
			if o.panic || o.st.dead {
				continue
			}
			if b := v.frame(ex, c, fn, args, pre, o.st); b != "" {
				bad = b + pathOf(o.st)
				return
			}
		}
	})
	if msg != "" {
		if un {
			v.markUnsup(c, mode, cname, "frame: "+msg)
			return
		}
		bad = msg
	}
	v.add(OblRes{Func: c.Key, Kind: "frame", Labels: c.FrameLb, Src: "modifies only " + modSrc(c), Case: cname, OK: bad == "", Detail: bad, Dur: time.Since(ts)})
}

// explain says in what the two sides of an equation of points differ.
func (s *State) explain(g *Term) string {
	if g.Op != "eq" {
		return ""
	}
	c := s.ctx
	switch g.Args[0].S {
	case SFld:
		d := polySub(modR, c.F(g.Args[0]), c.F(g.Args[1]))
		_, d = c.zeroF(d)
		return "; difference (" + strconv.Itoa(len(d.m)) + " terms): " + trunc(d.String(), 500)
	case SPt:
		a, b := c.P(g.Args[0]), c.P(g.Args[1])
		keys := map[string]bool{}
		for k := range a.m {
			keys[k] = true
		}
		for k := range b.m {
			keys[k] = true
		}
		out := ""
		for _, k := range sortedKeys(keys) {
			x, y := a.m[k], b.m[k]
			if x == nil {
				x = polyConst(big0, modR)
			}
			if y == nil {
				y = polyConst(big0, modR)
			}
			if z, d := c.zeroF(polySub(modR, x, y)); !z {
				out += "; coefficient of " + trunc(bases[k].t.str(5), 160) + " differs by (" + strconv.Itoa(len(d.m)) + " terms) " + trunc(d.String(), 400)
			}
		}
		return trunc(out, 1500)
	}
	return ""
}

func modSrc(c *Contract) string {
	if len(c.Modifies) == 0 {
		return "nothing"
	}
	var s []string
	for _, m := range c.Modifies {
		s = append(s, m.Src)
	}
	return strings.Join(s, ", ")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func pathOf(st *State) string {
	if len(st.facts) == 0 {
		return ""
	}
	s := " | path:"
	for i, f := range st.facts {
		if i > 5 {
			s += " ..."
			break
		}
		s += " " + trunc(f.str(3), 120)
	}
	return s
}
func whyNot(outs []Outcome) string {
	m := map[string]bool{}
	for _, o := range outs {
		if o.panic {
			m[o.why] = true
		} else if !o.st.dead {
			m["error return"] = true
		}
	}
	return strings.Join(sortedKeys(m), "; ")
}
func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// prove splits conjunctions and implications.
func (v *Verifier) prove(st *State, g *Term) int {
	if st.dead {
		return 1
	}
	if d := st.decide(g); d == 1 {
		return 1
	}
	switch g.Op {
	case "and":
		for _, a := range g.Args {
			if v.prove(st, a) != 1 {
				return 0
			}
		}
		return 1
	case "not":
		a := g.Args[0]
		if a.Op == "and" { // disjunction: assume the negation of all but one
			for i, x := range a.Args {
				s := st.clone()
				for j, y := range a.Args {
					if j != i {
						s.assume(y)
					}
				}
				if s.dead || s.decide(BNot(x)) == 1 {
					return 1
				}
			}
		}
	case "eq":
		// case split on conditionals
		if c := findIte(g); c != nil {
			s1, s2 := st.clone(), st.clone()
			s1.assume(c)
			s2.assume(BNot(c))
			g1 := substTerm(g, map[*Term]*Term{c: TrueT}, map[*Term]*Term{})
			g2 := substTerm(g, map[*Term]*Term{c: FalseT}, map[*Term]*Term{})
			if (s1.dead || v.prove(s1, g1) == 1) && (s2.dead || v.prove(s2, g2) == 1) {
				return 1
			}
		}
	}
	return 0
}

func findIte(t *Term) *Term {
	seen := map[*Term]bool{}
	var r *Term
	var f func(t *Term)
	f = func(t *Term) {
		if r != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "ite" {
			r = t.Args[0]
			return
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	return r
}

// frame checks that every cell of the entry state outside the modifies clause
// is unchanged.
func (v *Verifier) frame(ex *Exec, c *Contract, fn *ssa.Function, args []Val, pre, post *State) string {
	env := &Env{ex: ex, pre: pre, post: pre, cur: pre, vars: v.bindVars(c, fn, args)}
	var locs []locV
	for _, m := range c.Modifies {
		locs = append(locs, env.loc(m.E)...)
	}
	var ids []int
	for id := range pre.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := pre.heap[id]
		n := post.heap[id]
		if n == o || sameVal(o.V, n.V) {
			continue
		}
		name := o.Entry
		if name == "" {
			name = v.globalName(id)
		}
		if b := v.cellDiff(ex, post, id, o.V, n.V, nil, locs); b != "" {
			return fmt.Sprintf("%s%s changed", name, b)
		}
	}
	return ""
}

func (v *Verifier) globalName(id int) string {
	for g, i := range v.globals {
		if i == id {
			return "package variable " + g.Name()
		}
	}
	return fmt.Sprintf("object %d", id)
}

func prefix(p, q []PathElem) bool {
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i].I != q[i].I || p[i].Sym != q[i].Sym {
			return false
		}
	}
	return true
}

func (v *Verifier) allowed(st *State, id int, path []PathElem, lo, hi *Term, locs []locV) bool {
	for _, l := range locs {
		if l.p.Obj != id {
			continue
		}
		if !l.ranged && prefix(l.p.Path, path) {
			return true
		}
		if l.ranged && lo != nil && samePath(l.p.Path, path) {
			if st.decide(BAnd(Le(l.lo, lo), Le(hi, l.hi))) == 1 {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) cellDiff(ex *Exec, st *State, id int, a, b Val, path []PathElem, locs []locV) string {
	if sameVal(a, b) || v.allowed(st, id, path, nil, nil, locs) {
		return ""
	}
	switch x := a.(type) {
	case Struct:
		y, ok := b.(Struct)
		if ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if r := v.cellDiff(ex, st, id, x.F[i], y.F[i], ext(path, PathElem{I: i}), locs); r != "" {
					return r
				}
			}
			return ""
		}
	case Arr:
		y, ok := b.(Arr)
		if ok && len(x.E) == len(y.E) {
			for i := range x.E {
				if sameVal(x.E[i], y.E[i]) {
					continue
				}
				if v.allowed(st, id, path, IC(int64(i)), IC(int64(i+1)), locs) {
					continue
				}
				if r := v.cellDiff(ex, st, id, x.E[i], y.E[i], ext(path, PathElem{I: i}), locs); r != "" {
					return fmt.Sprintf("[%d]", i)
				}
			}
			return ""
		}
	case GenArr:
		y, ok := b.(GenArr)
		if ok {
			for _, w := range y.Writes[len(x.Writes):] {
				if !v.allowed(st, id, path, w.Lo, w.Hi, locs) {
					return "[" + w.Lo.String() + "]"
				}
			}
			return ""
		}
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S && st.decide(Eq(x, y)) == 1 {
			return ""
		}
	case Iface:
		// a Variable replaced by an equal one
		ty, w2 := ex.varTermIn(st, b)
		tx, w1 := ex.varTermIn(st, a)
		if w1 == "" && w2 == "" && st.decide(Eq(tx, ty)) == 1 {
			return ""
		}
	case Opq:
		if x.Kind == "sync" {
			return ""
		}
	}
	return " "
}

func (ex *Exec) varTermIn(st *State, v Val) (t *Term, why string) {
	defer func() {
		if r := recover(); r != nil {
			why = "unsupported"
		}
	}()
	return ex.varTerm(st, v)
}

// loc evaluates a modifies expression.
func (e *Env) loc(x ast.Expr) []locV {
	switch n := x.(type) {
	case *ast.StarExpr:
		if p, ok := untyped(e.Eval(n.X)).(Ptr); ok {
			return []locV{{p: p}}
		}
	case *ast.IndexExpr:
		idx := e.Int(n.Index)
		return e.rangeLoc(untyped(e.Eval(n.X)), idx, IAdd(idx, IC(1)))
	case *ast.SliceExpr:
		v := untyped(e.Eval(n.X))
		var lo, hi *Term = IC(0), nil
		if n.Low != nil {
			lo = e.Int(n.Low)
		}
		if n.High != nil {
			hi = e.Int(n.High)
		}
		if _, ok := v.(Arr); ok {
			if sel, ok := n.X.(*ast.SelectorExpr); ok {
				if p, ok := e.fieldLoc(sel); ok {
					return e.rangeLoc(p, lo, hi)
				}
			}
		}
		return e.rangeLoc(v, lo, hi)
	case *ast.CallExpr:
		// cells(s): the big.Int objects behind the elements of s
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "cells" {
			var r []locV
			for _, v := range e.List(n.Args[0]) {
				switch y := v.(type) {
				case Ptr:
					r = append(r, locV{p: y})
				case Iface:
					if p, ok := y.V.(Ptr); ok {
						r = append(r, locV{p: p})
					}
				}
			}
			return r
		}
	case *ast.SelectorExpr:
		if p, ok := e.fieldLoc(n); ok {
			return []locV{{p: p}}
		}
		if p, ok := untyped(e.Eval(x)).(Ptr); ok {
			return []locV{{p: p}}
		}
	case *ast.Ident:
		if p, ok := untyped(e.Eval(x)).(Ptr); ok {
			return []locV{{p: p}}
		}
	}
	sfail("bad location in modifies clause")
	return nil
}

// fieldLoc is the location of p.f, p a pointer to a struct.
func (e *Env) fieldLoc(n *ast.SelectorExpr) (Ptr, bool) {
	t, ok := e.Eval(n.X).(typed)
	if !ok {
		return Ptr{}, false
	}
	pt, ok := t.t.Underlying().(*types.Pointer)
	if !ok {
		return Ptr{}, false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	p, ok2 := t.v.(Ptr)
	if !ok || !ok2 || p.Obj == 0 {
		return Ptr{}, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n.Sel.Name {
			return Ptr{p.Obj, ext(p.Path, PathElem{I: i})}, true
		}
	}
	return Ptr{}, false
}

func (e *Env) rangeLoc(v interface{}, lo, hi *Term) []locV {
	switch y := v.(type) {
	case Slice:
		if hi == nil {
			hi = y.Len
		}
		return []locV{{Ptr{y.Obj, y.Path}, true, IAdd(y.Off, lo), IAdd(y.Off, hi)}}
	case Ptr:
		if hi == nil {
			if a, ok := e.cur.load(y).(Arr); ok {
				hi = IC(int64(len(a.E)))
			}
		}
		return []locV{{y, true, lo, hi}}
	}
	sfail("range location of %T", v)
	return nil
}

// verifyAccept: under the hypothesis, every execution returns normally with a
// nil error (no assertion fails, no panic).
func (v *Verifier) verifyAccept(c *Contract, fn *ssa.Function, cs map[string]string, cname string, cl Clause) {
	ts := time.Now()
	ex := v.newExec(Complete)
	ex.cur = c.Key
	ex.assumeNonExceptional = c.Hyp
	varSeq = map[string]int{}
	var outs []Outcome
	msg, un := catchSpec(func() {
		st := v.init.clone()
		e := &entry{v, ex, st, c, cs}
		var args []Val
		for i, p := range fn.Params {
			args = append(args, e.build(c.Params[i], p.Type()))
		}
		env := &Env{ex: ex, pre: st, post: st, cur: st, vars: v.bindVars(c, fn, args)}
		for _, r := range c.Requires {
			env.assumeEach(r.E)
		}
		env.assumeEach(cl.E)
		if st.dead {
			sfail("hypothesis is contradictory")
		}
		outs = ex.runFn(st, fn, args, nil)
	})
	if msg != "" {
		if un {
			v.markUnsup(c, Complete, cname, msg)
		} else {
			v.add(OblRes{Func: c.Key, Kind: "accepts", Labels: cl.Labels, Src: cl.Src, Where: cl.Line, Case: cname, OK: false, Detail: msg})
		}
		return
	}
	ei := errIndex(fn)
	bad := ""
	n := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panic {
			bad = o.why + pathOf(o.st)
			break
		}
		if ei >= 0 {
			if f, _ := resVals(fn, o.ret)[ei].(Iface); f.T != nil {
				bad = "error return" + pathOf(o.st)
				break
			}
		}
		n++
	}
	if bad == "" && n == 0 {
		bad = "no execution"
	}
	v.add(OblRes{Func: c.Key, Kind: "accepts", Labels: cl.Labels, Src: cl.Src, Where: cl.Line, Case: cname, OK: bad == "", Detail: bad, Dur: time.Since(ts)})
}

// ---------- contracts at call sites ----------

func (ex *Exec) fresh(st *State, name string, t types.Type) Val {
	switch typeKey(t) {
	case pG + "/frontend.Variable":
		return ex.newVar(st, IVar(freshName(name+"!"), big0, max256))
	}
	switch abstractScalar(t) {
	case "big":
		return IVar(freshName(name+"!"), nil, nil)
	case "fp":
		return IVar(freshName(name+"!"), big0, pMinus1)
	case "fr":
		return IVar(freshName(name+"!"), big0, rMinus1)
	case "emul":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs().Len() > 0 {
			if m := emulModulus(n.TypeArgs().At(0)); m != nil {
				return IVar(freshName(name+"!"), big0, new(big.Int).Sub(m, big1))
			}
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(t)
			return IVar(freshName(name+"!"), lo, hi)
		}
		if u.Info()&types.IsBoolean != 0 {
			return mk("var", SBool, freshName(name+"!"), nil, 0, 0)
		}
	case *types.Array:
		a := Arr{make([]Val, u.Len())}
		for i := range a.E {
			if a.E[i] = ex.fresh(st, fmt.Sprintf("%s%d", name, i), u.Elem()); a.E[i] == nil {
				return nil
			}
		}
		return a
	case *types.Struct:
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.F {
			if s.F[i] = ex.fresh(st, name, u.Field(i).Type()); s.F[i] == nil {
				return nil
			}
		}
		return s
	case *types.Pointer:
		x := ex.fresh(st, name, u.Elem())
		if x == nil {
			return nil
		}
		return st.alloc(u.Elem(), x)
	}
	return nil
}

// fits: the argument satisfies the entry assumptions the contract was verified
// under (types, shapes, ranges).
func (ex *Exec) fits(st *State, c *Contract, path string, v Val, t types.Type, cs map[string]string) bool {
	sh := c.Shapes[path]
	if cases, ok := c.Cases[path]; ok {
		found := false
		for _, k := range cases {
			if !strings.HasPrefix(k, "=") {
				if s, ok := v.(Slice); ok {
					n, ok := st.constInt(s.Len)
					if f := strings.Fields(k); ok && len(f) > 0 && f[0] == strconv.FormatInt(n, 10) {
						sh, found = k, true
						break
					}
				}
				continue
			}
			val := k[1:]
			switch x := v.(type) {
			case Str:
				s, ok := x.Const()
				u, err := strconv.Unquote(val)
				if err != nil {
					u = val
				}
				found = found || ok && s == u
			default:
				tm, why := ex.anyInt(st, v)
				if why == "" && tm.IsC() && tm.K.String() == val {
					found = true
				}
			}
			if found {
				return true
			}
		}
		if !found {
			return false
		}
	}
	if strings.HasPrefix(sh, "=") {
		return false
	}
	return ex.fitsType(st, c, path, sh, v, t)
}

func (ex *Exec) anyInt(st *State, v Val) (*Term, string) {
	if t, ok := v.(*Term); ok {
		return t, ""
	}
	if p, ok := v.(Ptr); ok && p.Obj != 0 {
		if t, ok := st.load(p).(*Term); ok {
			return t, ""
		}
		return nil, "x"
	}
	if _, ok := v.(Iface); ok {
		return ex.varTermIn(st, v)
	}
	return nil, "x"
}

func (ex *Exec) fitsType(st *State, c *Contract, path, sh string, v Val, t types.Type) bool {
	rng := func(tm *Term, sh string) bool {
		switch sh {
		case "int":
			return true
		case "nat":
			return st.decide(Le(IC(0), tm)) == 1
		case "field":
			return st.decide(BAnd(Le(IC(0), tm), Le(tm, ICB(rMinus1)))) == 1
		case "fp":
			return st.decide(BAnd(Le(IC(0), tm), Le(tm, ICB(pMinus1)))) == 1
		case "byte":
			return st.decide(BAnd(Le(IC(0), tm), Le(tm, IC(255)))) == 1
		}
		return st.decide(BAnd(Le(IC(0), tm), Le(tm, ICB(max256)))) == 1
	}
	switch typeKey(t) {
	case pG + "/frontend.API":
		f, ok := v.(Iface)
		return ok && f.T != nil
	case pG + "/frontend.Variable":
		f, ok := v.(Iface)
		if !ok || f.T == nil || !types.Identical(f.T, ex.bigPtrType()) {
			return false
		}
		tm, why := ex.varTermIn(st, v)
		return why == "" && rng(tm, sh)
	}
	switch abstractScalar(t) {
	case "big":
		tm, ok := v.(*Term)
		return ok && rng(tm, sh)
	case "fp", "fr", "emul":
		_, ok := v.(*Term)
		return ok
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		_, ok := v.(*Term)
		return ok
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok || p.Obj == 0 {
			return false
		}
		return ex.fitsType(st, c, path, sh, st.load(p), u.Elem())
	case *types.Array:
		a, ok := v.(Arr)
		if !ok {
			return false
		}
		for i, x := range a.E {
			if !ex.fitsType(st, c, fmt.Sprintf("%s[%d]", path, i), sh, x, u.Elem()) {
				return false
			}
		}
		return true
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			return false
		}
		if typeKey(t) == pG+"/std/math/uints.U8" {
			return false
		}
		for i, x := range s.F {
			p := path + "." + u.Field(i).Name()
			if !ex.fitsType(st, c, p, c.Shapes[p], x, u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Slice:
		s, ok := v.(Slice)
		if !ok {
			return false
		}
		f := strings.Fields(sh)
		n, esh := "*", ""
		if len(f) > 0 {
			n = f[0]
		}
		if len(f) > 1 {
			esh = f[1]
		}
		k, isC := st.constInt(s.Len)
		if n != "*" && (!isC || strconv.FormatInt(k, 10) != n) {
			return false
		}
		if !isC {
			return false
		}
		if k > 0 && s.Obj == 0 {
			return false
		}
		for _, x := range ex.elems(st, s) {
			if !ex.fitsType(st, c, path, esh, x, u.Elem()) {
				return false
			}
		}
		return true
	}
	return false
}

// argument objects must not alias one another where the contract modifies
func (ex *Exec) aliased(c *Contract, args []Val) bool {
	if len(c.Modifies) == 0 {
		return false
	}
	seen := map[int]bool{}
	for _, a := range args {
		id := 0
		switch x := a.(type) {
		case Ptr:
			id = x.Obj
		case Slice:
			id = x.Obj
		}
		if id != 0 {
			if seen[id] {
				return true
			}
			seen[id] = true
		}
	}
	return false
}

func (ex *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, args []Val, pos token.Pos) (outs []Outcome, ok bool) {
	if len(args) != len(c.Params) || fn.Signature.Results().Len() != len(c.Results) {
		return nil, false
	}
	if ta := fn.TypeArgs(); len(ta) > 0 {
		return nil, false
	}
	for i := range args {
		if !ex.fits(st, c, c.Params[i], args[i], fn.Params[i].Type(), nil) {
			return nil, false
		}
	}
	if ex.aliased(c, args) {
		return nil, false
	}
	v := &Verifier{}
	msg, _ := catchSpec(func() {
		env := &Env{ex: ex, pre: st, post: st, cur: st, vars: v.bindVars(c, fn, args)}
		for _, r := range c.Requires {
			if st.decide(env.Bool(r.E)) != 1 {
				sfail("requires %s", r.Src)
			}
		}
	})
	if msg != "" {
		return nil, false
	}
	ei := errIndex(fn)
	pre := st.clone()
	mkOut := func(s *State, isErr bool) (Outcome, bool) {
		// havoc
		envPre := &Env{ex: ex, pre: pre, post: pre, cur: pre, vars: v.bindVars(c, fn, args)}
		for _, m := range c.Modifies {
			for _, l := range envPre.loc(m.E) {
				if !ex.havoc(s, l) {
					return Outcome{}, false
				}
			}
		}
		var rs []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if i == ei {
				if isErr {
					rs = append(rs, ex.errVal("error of "+fn.Name()))
				} else {
					rs = append(rs, nilErr)
				}
				continue
			}
			x := ex.fresh(s, fn.Name()+"_"+c.Results[i], t)
			if x == nil {
				return Outcome{}, false
			}
			rs = append(rs, x)
		}
		env := &Env{ex: ex, pre: pre, post: s, cur: s, vars: v.bindVars(c, fn, args)}
		for i, r := range rs {
			env.vars[c.Results[i]] = mkTyped(r, fn.Signature.Results().At(i).Type())
		}
		cls := c.Ensures
		if isErr {
			cls = c.OnErr
		}
		for _, cl := range cls {
			ex.assumeClause(env, s, cl)
			if s.dead {
				if os.Getenv("GCV_DEAD") != "" && !isErr {
					fmt.Fprintf(os.Stderr, "dead: %s %s at %s\n", c.Key, cl.Src, ex.pos(pos))
				}
				break
			}
		}
		var ret Val
		switch len(rs) {
		case 0:
		case 1:
			ret = rs[0]
		default:
			ret = Tuple(rs)
		}
		return Outcome{st: s, ret: ret}, true
	}
	good := true
	msg, _ = catchSpec(func() {
		if ei >= 0 && !c.NeverErr {
			o, k := mkOut(pre.clone(), true)
			if !k {
				good = false
				return
			}
			if !o.st.dead {
				outs = append(outs, o)
			}
		}
		o, k := mkOut(pre.clone(), false)
		if !k {
			good = false
			return
		}
		if !o.st.dead {
			outs = append(outs, o)
		}
	})
	if msg != "" || !good {
		return nil, false
	}
	ex.applied[c.Key]++
	// the normal outcome first
	for i, j := 0, len(outs)-1; i < j; i, j = i+1, j-1 {
		outs[i], outs[j] = outs[j], outs[i]
	}
	return outs, true
}

// assumeClause assumes an ensures clause; "location == e" with a fresh
// location binds the location to e.
func (ex *Exec) assumeClause(env *Env, s *State, cl Clause) {
	if b, ok := cl.E.(*ast.BinaryExpr); ok && b.Op == token.EQL {
		lv := untyped(env.Eval(b.X))
		if f, ok := lv.(Iface); ok {
			if p, ok := f.V.(Ptr); ok && p.Obj != 0 {
				if t, ok := s.load(p).(*Term); ok && t.Op == "var" && strings.Contains(t.Name, "!") && s.ctx.subst[t] == nil {
					rv := env.toInt(env.Eval(b.Y))
					if !termHas(rv, t, map[*Term]bool{}) {
						s.store(p, s.ctx.reint(rv))
						return
					}
				}
			}
		}
	}
	s.assume(env.Bool(cl.E))
}

func (ex *Exec) havoc(s *State, l locV) bool {
	if l.ranged {
		lo, ok1 := s.constInt(l.lo)
		hi, ok2 := s.constInt(l.hi)
		if !ok1 || !ok2 {
			return false
		}
		for i := lo; i < hi; i++ {
			if !ex.havocCell(s, Ptr{l.p.Obj, ext(l.p.Path, PathElem{I: int(i)})}) {
				return false
			}
		}
		return true
	}
	return ex.havocCell(s, l.p)
}

func (ex *Exec) havocCell(s *State, p Ptr) bool {
	switch x := s.load(p).(type) {
	case *Term:
		switch x.S {
		case SInt:
			s.store(p, IVar(freshName("hv!"), nil, nil))
			return true
		}
		return false
	case Iface:
		s.store(p, ex.newVar(s, IVar(freshName("hv!"), big0, max256)))
		return true
	case Ptr:
		if x.Obj == 0 {
			s.store(p, ex.newBig(s, IVar(freshName("hv!"), nil, nil)))
			return true
		}
		if _, ok := s.load(x).(*Term); ok {
			s.store(p, ex.newBig(s, IVar(freshName("hv!"), nil, nil)))
			return true
		}
		return false
	case Arr:
		for i := range x.E {
			if !ex.havocCell(s, Ptr{p.Obj, ext(p.Path, PathElem{I: i})}) {
				return false
			}
		}
		return true
	}
	return false
}

// assumeEach assumes the conjuncts of x one after the other, each evaluated
// under the ones before it.
func (e *Env) assumeEach(x ast.Expr) {
	if p, ok := x.(*ast.ParenExpr); ok {
		e.assumeEach(p.X)
		return
	}
	if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		e.assumeEach(b.X)
		e.assumeEach(b.Y)
		return
	}
	e.cur.assume(e.Bool(x))
}
