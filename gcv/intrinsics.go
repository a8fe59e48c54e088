package main

// Contracts assumed on the dependencies (gnark, gnark-crypto, go-ethereum, the
// standard library).  They form the trusted base; trustedUsed records which of
// them a run relied on.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intr func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome

var trustedUsed = map[string]int{}

// ---------- helpers ----------

func (ex *Exec) bigType() types.Type    { return ex.namedType("math/big", "Int") }
func (ex *Exec) bigPtrType() types.Type { return types.NewPointer(ex.bigType()) }

func (ex *Exec) namedType(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := ex.ntypes[k]; ok {
		return t
	}
	for _, p := range ex.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				ex.ntypes[k] = o.Type()
				return o.Type()
			}
		}
	}
	unsup("type %s not found", k)
	return nil
}

func (ex *Exec) newBig(st *State, t *Term) Ptr { return st.alloc(ex.bigType(), t) }
func (ex *Exec) newVar(st *State, t *Term) Iface {
	return Iface{ex.bigPtrType(), ex.newBig(st, t)}
}
func (ex *Exec) circuitVar() Iface { return ex.havocVar(nil) }
func isCircuitVar(v Val) bool {
	if f, ok := v.(Iface); ok {
		if o, ok := f.V.(Opq); ok && o.Kind == "circuitvar" {
			return true
		}
	}
	return false
}

func (ex *Exec) errVal(name string) Iface {
	return Iface{types.NewPointer(types.NewStruct(nil, nil)), ErrV{name}}
}

var nilErr = Iface{}

// bigOf reads the integer behind a *big.Int / *fp.Element pointer.
func (ex *Exec) bigOf(st *State, v Val) *Term {
	switch p := v.(type) {
	case Ptr:
		if p.Obj == 0 {
			unsup("nil big.Int")
		}
		t, ok := st.load(p).(*Term)
		if !ok {
			unsup("big.Int cell holds %T", st.load(p))
		}
		return t
	case SymPtr:
		if t, ok := p.V.(*Term); ok {
			return t
		}
	case *Term:
		return p
	}
	unsup("big.Int value of %T", v)
	return nil
}

func isNilPtr(v Val) bool {
	p, ok := v.(Ptr)
	return ok && p.Obj == 0
}

func panics(st *State, why string) []Outcome { return []Outcome{{st: st, panic: true, why: why}} }

// varTerm is the integer a frontend.Variable denotes.
func (ex *Exec) varTerm(st *State, v Val) (*Term, string) {
	f, ok := v.(Iface)
	if !ok {
		unsup("frontend.Variable of %T", v)
	}
	if f.T == nil {
		return nil, "nil variable"
	}
	if isCircuitVar(f) {
		return nil, "circuit"
	}
	switch x := f.V.(type) {
	case *Term:
		if x.S == SInt {
			return x, ""
		}
	case Ptr:
		if x.Obj == 0 {
			return nil, "nil pointer variable"
		}
		if t, ok := st.load(x).(*Term); ok && t.S == SInt {
			return t, ""
		}
	case SymPtr:
		if t, ok := x.V.(*Term); ok {
			return t, ""
		}
	case Str:
		if s, ok := x.Const(); ok {
			if b, ok := new(big.Int).SetString(s, 0); ok {
				return ICB(b), ""
			}
		}
		if len(x.P) == 1 && x.P[0].Dec != nil {
			return x.P[0].Dec, ""
		}
	case ErrV:
		return nil, "error value used as variable"
	}
	return nil, fmt.Sprintf("variable of dynamic type %s", f.T)
}

// canonV: the canonical residue an API call sees for v.
func canonT(t *Term) *Term {
	if t.Op == "ite" && t.Args[1].IsC() && t.Args[2].IsC() && inFr(t.Args[1].K) && inFr(t.Args[2].K) {
		return t
	}
	return FInt(FOf(t))
}
func inFr(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(modR) < 0 }

// vars reads all operands; on failure a panic outcome is produced.
func (ex *Exec) apiArgs(st *State, args []Val) ([]*Term, string) {
	var r []*Term
	for _, a := range args {
		t, why := ex.varTerm(st, a)
		if why != "" {
			return nil, why
		}
		r = append(r, t)
	}
	return r, ""
}

// constrain adds a circuit constraint: assumed when proving soundness, a
// possible rejection when proving completeness.
func (ex *Exec) constrain(st *State, b *Term, name string, pos string) []Outcome {
	if ex.mode == Complete {
		return ex.mayPanic(st, BNot(b), name+" at "+pos)
	}
	if ex.abs() {
		return nil
	}
	st.events = append(st.events, Event{Kind: name, Args: []*Term{b}, Pos: pos})
	st.assume(b)
	return nil
}

func isBoolT(st *State, t *Term) *Term { return BAnd(Le(IC(0), t), Le(t, IC(1))) }

// boolOf: the proposition "t != 0" of a 0/1 integer.
func boolOf(t *Term) *Term {
	if t.IsC() {
		return BC(t.K.Sign() != 0)
	}
	if t.Op == "ite" && t.Args[1].IsC() && t.Args[2].IsC() && t.Args[1].K.Cmp(big1) == 0 && t.Args[2].K.Sign() == 0 {
		return t.Args[0]
	}
	return Eq(t, IC(1))
}
func ofBool(b *Term) *Term { return IIte(b, IC(1), IC(0)) }

// ---------- frontend.API ----------

var apiMethods map[string]intr

// flatten i1, i2, in... (variadic slice last)
func (ex *Exec) variadic(st *State, args []Val, fixed int) []Val {
	out := append([]Val{}, args[:fixed]...)
	if s, ok := args[fixed].(Slice); ok && s.Obj != 0 {
		out = append(out, ex.elems(st, s)...)
	}
	return out
}

func apiOp(fixed int, variadic bool, f func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome)) intr {
	return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		vs := args
		if variadic {
			vs = ex.variadic(st, args, fixed)
		}
		ts, why := ex.apiArgs(st, vs)
		if why != "" {
			return panics(st, "API."+ci.name+": "+why+" at "+ex.pos(ci.pos))
		}
		r, outs := f(ex, st, ts, ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		var rv Val
		if r != nil {
			rv = ex.newVar(st, r)
		}
		return append(outs, Outcome{st: st, ret: rv})
	}
}

func bools(ex *Exec, st *State, ts []*Term, pos string) []Outcome {
	var outs []Outcome
	for _, t := range ts {
		outs = append(outs, ex.constrain(st, isBoolT(st, canonT(t)), "boolean operand", pos)...)
		if st.dead {
			return outs
		}
	}
	return outs
}

func init() {
	apiMethods = map[string]intr{
		"Compiler": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, Iface{ex.apiType, Opq{"compiler", nil}})
		},
		"Add": apiOp(2, true, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			var fs []*Term
			for _, t := range ts {
				fs = append(fs, FOf(t))
			}
			return FInt(FAdd(fs...)), nil
		}),
		"Sub": apiOp(2, true, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			fs := []*Term{FOf(ts[0])}
			for _, t := range ts[1:] {
				fs = append(fs, FNeg(FOf(t)))
			}
			return FInt(FAdd(fs...)), nil
		}),
		"Mul": apiOp(2, true, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			var fs []*Term
			for _, t := range ts {
				fs = append(fs, FOf(t))
			}
			return FInt(FMul(fs...)), nil
		}),
		"MulAcc": apiOp(3, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			return FInt(FAdd(FOf(ts[0]), FMul(FOf(ts[1]), FOf(ts[2])))), nil
		}),
		"Neg": apiOp(1, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			return FInt(FNeg(FOf(ts[0]))), nil
		}),
		"Inverse": apiOp(1, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := ex.constrain(st, BNot(Eq(FOf(ts[0]), FCI(0))), "Inverse of zero", pos)
			return FInt(FInv(FOf(ts[0]))), o
		}),
		"Div": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := ex.constrain(st, BNot(Eq(FOf(ts[1]), FCI(0))), "Div by zero", pos)
			return FInt(FDiv(FOf(ts[0]), FOf(ts[1]))), o
		}),
		"DivUnchecked": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			if st.decide(Eq(FOf(ts[1]), FCI(0))) == -1 {
				return FInt(FDiv(FOf(ts[0]), FOf(ts[1]))), nil
			}
			// q*b == a; unconstrained when a == b == 0
			q := FVar(freshName("divu!"))
			o := ex.constrain(st, Eq(FMul(q, FOf(ts[1])), FOf(ts[0])), "DivUnchecked", pos)
			return FInt(q), o
		}),
		"IsZero": apiOp(1, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			return ofBool(Eq(FOf(ts[0]), FCI(0))), nil
		}),
		"Or": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := bools(ex, st, ts, pos)
			return ofBool(BOr(boolOf(ts[0]), boolOf(ts[1]))), o
		}),
		"And": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := bools(ex, st, ts, pos)
			return ofBool(BAnd(boolOf(ts[0]), boolOf(ts[1]))), o
		}),
		"Xor": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := bools(ex, st, ts, pos)
			a, b := boolOf(ts[0]), boolOf(ts[1])
			return ofBool(BOr(BAnd(a, BNot(b)), BAnd(BNot(a), b))), o
		}),
		"Select": apiOp(3, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := bools(ex, st, ts[:1], pos)
			return IIte(boolOf(ts[0]), canonT(ts[1]), canonT(ts[2])), o
		}),
		"Lookup2": apiOp(6, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			o := bools(ex, st, ts[:2], pos)
			a, b := boolOf(ts[0]), boolOf(ts[1])
			return IIte(b, IIte(a, canonT(ts[5]), canonT(ts[4])), IIte(a, canonT(ts[3]), canonT(ts[2]))), o
		}),
		"Cmp": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			a, b := canonT(ts[0]), canonT(ts[1])
			return IIte(Eq(a, b), IC(0), IIte(Lt(a, b), ICB(rMinus1), IC(1))), nil
		}),
		"AssertIsEqual": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			if ex.mode == Complete {
				return nil, ex.constrain(st, Eq(ts[0], ts[1]), "AssertIsEqual", pos)
			}
			return nil, ex.constrain(st, fldEq(st, ts[0], ts[1]), "AssertIsEqual", pos)
		}),
		"AssertIsDifferent": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			return nil, ex.constrain(st, BNot(Eq(FOf(ts[0]), FOf(ts[1]))), "AssertIsDifferent", pos)
		}),
		"AssertIsBoolean": apiOp(1, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			return nil, ex.constrain(st, isBoolT(st, canonT(ts[0])), "AssertIsBoolean", pos)
		}),
		"AssertIsCrumb": apiOp(1, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			return nil, ex.constrain(st, Le(canonT(ts[0]), IC(3)), "AssertIsCrumb", pos)
		}),
		"AssertIsLessOrEqual": apiOp(2, false, func(ex *Exec, st *State, ts []*Term, pos string) (*Term, []Outcome) {
			if ex.mode == Complete {
				return nil, ex.constrain(st, BAnd(Le(ts[0], ts[1]), Le(IC(0), ts[1])), "AssertIsLessOrEqual", pos)
			}
			// gnark v0.10's R1CS builder emits "l * 0 == 0" when the first operand
			// is a constant and the second is not: nothing is enforced
			_, c0 := st.ctx.I(ts[0]).isConst()
			_, c1 := st.ctx.I(ts[1]).isConst()
			if c0 && !c1 {
				return nil, ex.constrain(st, TrueT, "AssertIsLessOrEqual", pos)
			}
			return nil, ex.constrain(st, Le(canonT(ts[0]), canonT(ts[1])), "AssertIsLessOrEqual", pos)
		}),
		"ToBinary": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			n := int64(254)
			if s, ok := args[1].(Slice); ok && s.Obj != 0 {
				if es := ex.elems(st, s); len(es) > 0 {
					k, ok := st.constInt(es[0])
					if !ok {
						unsup("ToBinary size")
					}
					n = k
				}
			}
			if isCircuitVar(args[0]) {
				var es []Val
				for i := int64(0); i < n; i++ {
					es = append(es, ex.circuitVar())
				}
				return one(st, ex.newSlice(st, es))
			}
			t, why := ex.varTerm(st, args[0])
			if why != "" {
				return panics(st, "ToBinary: "+why)
			}
			v := canonT(t)
			outs := ex.constrain(st, Lt(v, ICB(new(big.Int).Lsh(big1, uint(n)))), "ToBinary range", ex.pos(ci.pos))
			if st.dead {
				return outs
			}
			v = st.ctx.reint(v)
			var es []Val
			for i := int64(0); i < n; i++ {
				es = append(es, ex.newVar(st, Bits(v, int(i), 1)))
			}
			return append(outs, Outcome{st: st, ret: ex.newSlice(st, es)})
		},
		"FromBinary": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			es := ex.elems(st, args[0])
			for _, e := range es {
				if isCircuitVar(e) {
					return one(st, ex.circuitVar())
				}
			}
			ts, why := ex.apiArgs(st, es)
			if why != "" {
				return panics(st, "FromBinary: "+why)
			}
			outs := bools(ex, st, ts, ex.pos(ci.pos))
			if st.dead {
				return outs
			}
			var as []*Term
			for i, t := range ts {
				as = append(as, IMul(ICB(new(big.Int).Lsh(big1, uint(i))), t))
			}
			return append(outs, Outcome{st: st, ret: ex.newVar(st, canonT(IAdd(as...)))})
		},
		"Println": nop, "Commit": nil,
		"MarkBoolean": nop,
		"Field": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, ex.newBig(st, ICB(modR)))
		},
		"FieldBitLen": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome { return one(st, IC(254)) },
		"NewHint":     newHint,
		"ConstantValue": func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			if isCircuitVar(args[0]) {
				return one(st, Tuple{Ptr{}, FalseT})
			}
			t, why := ex.varTerm(st, args[0])
			if why != "" {
				return panics(st, "ConstantValue: "+why)
			}
			return one(st, Tuple{ex.newBig(st, t), TrueT})
		},
	}
	delete(apiMethods, "Commit")
}

// fldEq is the constraint a == b of the proof system: field equality, which is
// integer equality for canonical residues.
func fldEq(st *State, a, b *Term) *Term {
	if st.ctx.isCanonR(a) && st.ctx.isCanonR(b) {
		return Eq(a, b)
	}
	return Eq(FOf(a), FOf(b))
}

func nop(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
	n := 0
	if ci.fn != nil {
		n = ci.fn.Signature.Results().Len()
	}
	if n > 0 {
		unsup("result of ignored call %s", ci.name)
	}
	return one(st, nil)
}

func newHint(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
	n, ok := st.constInt(args[1])
	if !ok {
		unsup("symbolic number of hint outputs")
	}
	ins := ex.variadic(st, args, 2)[2:]
	f, _ := args[0].(FuncV)
	name := "?"
	if f.Fn != nil {
		name = f.Fn.Name()
	}
	if n <= 0 {
		return one(st, Tuple{Slice{Off: IC(0), Len: IC(0), Cap: IC(0)}, ex.errVal("hint outputs")})
	}
	ex.hintsUsed[name] = true
	if ex.abs() {
		for _, v := range ins {
			if poisoned(v) || v == nil || v.(Iface).T == nil {
				return panics(st, "NewHint of a failed or missing value at "+ex.pos(ci.pos))
			}
		}
		var es []Val
		for i := int64(0); i < n; i++ {
			es = append(es, ex.havocVar(st))
		}
		return one(st, Tuple{ex.newSlice(st, es), nilErr})
	}
	ts, why := ex.apiArgs(st, ins)
	if why != "" {
		return panics(st, "NewHint: "+why+" at "+ex.pos(ci.pos))
	}
	if ex.mode == Sound {
		var es []Val
		for i := int64(0); i < n; i++ {
			v := FVar(freshName("hint_" + name + "!"))
			es = append(es, ex.newVar(st, FInt(v)))
		}
		st.events = append(st.events, Event{Kind: "hint:" + name, Args: ts, Pos: ex.pos(ci.pos)})
		return one(st, Tuple{ex.newSlice(st, es), nilErr})
	}
	// honest execution of the hint function
	if f.Fn == nil {
		unsup("unknown hint function")
	}
	var iv, ov []Val
	for _, t := range ts {
		iv = append(iv, ex.newBig(st, t))
	}
	for i := int64(0); i < n; i++ {
		ov = append(ov, ex.newBig(st, IC(0)))
	}
	outS := ex.newSlice(st, ov)
	outs := ex.call(st, f.Fn, []Val{ex.newBig(st, ICB(modR)), ex.newSlice(st, iv), outS}, f.Bind, ci.pos)
	var res []Outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panic {
			res = append(res, o)
			continue
		}
		e, ok := o.ret.(Iface)
		if !ok || e.T != nil {
			res = append(res, Outcome{st: o.st, panic: true, why: "hint " + name + " returns an error at " + ex.pos(ci.pos)})
			continue
		}
		var es []Val
		bad := false
		for _, p := range ex.elems(o.st, outS) {
			if isNilPtr(p) {
				bad = true
				break
			}
			es = append(es, ex.newVar(o.st, canonT(ex.bigOf(o.st, p))))
		}
		if bad {
			res = append(res, Outcome{st: o.st, panic: true, why: "hint " + name + " leaves a nil result"})
			continue
		}
		res = append(res, Outcome{st: o.st, ret: Tuple{ex.newSlice(o.st, es), nilErr}})
	}
	return res
}

// ---------- free functions and methods ----------

var intrinsics map[string]intr

var objMethods map[string]intr

func prefixIntrinsic(name string) intr {
	switch {
	case strings.HasPrefix(name, "log."), strings.HasPrefix(name, "fmt.Print"):
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			if strings.HasPrefix(ci.name, "log.Fatal") || strings.HasPrefix(ci.name, "log.Panic") {
				return panics(st, ci.name)
			}
			if ci.fn.Signature.Results().Len() == 2 {
				return one(st, Tuple{IC(0), nilErr})
			}
			return one(st, nil)
		}
	case strings.HasSuffix(name, ".init"):
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome { return one(st, nil) }
	}
	return nil
}

// def helpers
type bigBin func(a, b *Term) *Term

func bigOp(f bigBin) intr {
	return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		for _, a := range args {
			if isNilPtr(a) {
				return panics(st, "nil big.Int in "+ci.name+" at "+ex.pos(ci.pos))
			}
		}
		st.store(args[0].(Ptr), f(ex.bigOf(st, args[1]), ex.bigOf(st, args[2])))
		return one(st, args[0])
	}
}

func (ex *Exec) bytesOf(st *State, v Val) []*Term {
	var r []*Term
	switch x := v.(type) {
	case Arr:
		for _, e := range x.E {
			r = append(r, e.(*Term))
		}
		return r
	case Str:
		if c, ok := x.Const(); ok {
			for i := 0; i < len(c); i++ {
				r = append(r, IC(int64(c[i])))
			}
			return r
		}
		unsup("bytes of symbolic string")
	}
	for _, e := range ex.elems(st, v) {
		t, ok := e.(*Term)
		if !ok {
			unsup("byte of type %T", e)
		}
		r = append(r, t)
	}
	return r
}

func beInt(bs []*Term) *Term {
	var as []*Term
	for i, b := range bs {
		as = append(as, IMul(ICB(new(big.Int).Lsh(big1, uint(8*(len(bs)-1-i)))), b))
	}
	if len(as) == 0 {
		return IC(0)
	}
	return IAdd(as...)
}

var max256 = new(big.Int).Sub(new(big.Int).Lsh(big1, 256), big1)

// hash functions are uninterpreted functions of the byte string
func hashTerm(name string, bs []*Term) *Term { return UFInt(name, big0, max256, bs...) }
func hashBytes(name string, bs []*Term) []*Term {
	h := hashTerm(name, bs)
	r := make([]*Term, 32)
	for i := range r {
		r[i] = ByteAt(h, i, 32)
	}
	return r
}
func termVals(ts []*Term) []Val {
	r := make([]Val, len(ts))
	for i, t := range ts {
		r[i] = t
	}
	return r
}

func fpMod(t *Term) *Term { return IModC(t, modP) }

// curveTerm: the predicate y^2 = x^3+3 (mod p) or x=y=0.
func onCurveT(x, y *Term) *Term {
	if x.IsC() && y.IsC() {
		return BC(onCurveC(x.K, y.K))
	}
	if x.Op == "xint" && y.Op == "yint" && x.Args[0] == y.Args[0] {
		return TrueT
	}
	return Pred("oncurve", x, y)
}

func structTerms(v Val, n int) []*Term {
	s, ok := v.(Struct)
	if !ok {
		unsup("struct expected, got %T", v)
	}
	var r []*Term
	for i := 0; i < n; i++ {
		t, ok := s.F[i].(*Term)
		if !ok {
			unsup("scalar field expected")
		}
		r = append(r, t)
	}
	return r
}
func (ex *Exec) affine(st *State, v Val) (x, y *Term) {
	var s Val
	switch p := v.(type) {
	case Ptr:
		s = st.load(p)
	case SymPtr:
		s = p.V
	default:
		s = v
	}
	ts := structTerms(s, 2)
	return ts[0], ts[1]
}

// pointOf: the group element with these coordinates; off the curve the group
// operations of the dependency are unspecified.
func (ex *Exec) pointOf(st *State, x, y *Term) *Term {
	if st.decide(onCurveT(x, y)) == 1 {
		return PBase(x, y)
	}
	return UF(SPt, "offcurve", x, y)
}

func setScalar(ex *Exec, st *State, recv Val, t *Term) Val {
	st.store(recv.(Ptr), t)
	return recv
}

func (ex *Exec) hit(kind string) {
	if ex.mode == Compile {
		ex.compileHits[kind] = true
	}
}

// setInterface: fp/fr.Element.SetInterface.
func setInterface(m *big.Int, what string) intr {
	return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		v := args[1]
		if isCircuitVar(v) {
			ex.hit("conversion of " + originOf(v) + " to a field element")
			st.store(args[0].(Ptr), UFInt("havocfp", big0, new(big.Int).Sub(m, big1), IC(int64(len(st.events)))))
			return one(st, Tuple{args[0], nilErr})
		}
		t, why := ex.varTerm(st, v)
		if why != "" {
			return one(st, Tuple{Ptr{}, ex.errVal(what + ".SetInterface: " + why)})
		}
		st.store(args[0].(Ptr), IModC(t, m))
		return one(st, Tuple{args[0], nilErr})
	}
}

func emulModulus(t types.Type) *big.Int {
	k := typeKey(t)
	switch {
	case strings.HasSuffix(k, "emparams.BN254Fp"):
		return modP
	case strings.HasSuffix(k, "emparams.BN254Fr"):
		return modR
	case strings.HasSuffix(k, "emparams.Secp256k1Fp"):
		m, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
		return m
	case strings.HasSuffix(k, "emparams.Secp256k1Fr"):
		m, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
		return m
	}
	return nil
}
func shortField(t types.Type) string {
	k := typeKey(t)
	return k[strings.LastIndex(k, ".")+1:]
}

// typeArgs of the callee, from its instance or its receiver.
func tArgs(fn *ssa.Function) []types.Type {
	if ta := fn.TypeArgs(); len(ta) > 0 {
		return ta
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			var out []types.Type
			for i := 0; i < n.TypeArgs().Len(); i++ {
				out = append(out, n.TypeArgs().At(i))
			}
			return out
		}
	}
	return nil
}

const (
	pGC  = "github.com/consensys/gnark-crypto/ecc/bn254"
	pG   = "github.com/consensys/gnark"
	pEth = "github.com/ethereum/go-ethereum/crypto"
)

func init() {
	I := map[string]intr{}
	intrinsics = I
	def := func(f intr, names ...string) {
		for _, n := range names {
			I[n] = f
		}
	}
	// --- math/big ---
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, ex.newBig(st, args[0].(*Term)))
	}, "math/big.NewInt")
	B := "(*math/big.Int)."
	def(bigOp(func(a, b *Term) *Term { return IAdd(a, b) }), B+"Add")
	def(bigOp(func(a, b *Term) *Term { return ISub(a, b) }), B+"Sub")
	def(bigOp(func(a, b *Term) *Term { return IMul(a, b) }), B+"Mul")
	divlike := func(q bool, trunc bool) intr {
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			a, b := ex.bigOf(st, args[1]), ex.bigOf(st, args[2])
			if st.decide(Eq(b, IC(0))) != -1 {
				outs := ex.mayPanic(st, Eq(b, IC(0)), "division by zero at "+ex.pos(ci.pos))
				if st.dead {
					return outs
				}
				if len(outs) > 0 {
					unsup("possibly zero divisor")
				}
			}
			bc, ok := st.ctx.I(b).isConst()
			if !ok || bc.Sign() <= 0 {
				if ac, ok2 := st.ctx.I(a).isConst(); ok && ok2 {
					r := new(big.Int)
					switch {
					case q && trunc:
						r.Quo(ac, bc)
					case q:
						r.Div(ac, bc)
					case trunc:
						r.Rem(ac, bc)
					default:
						r.Mod(ac, bc)
					}
					st.store(args[0].(Ptr), ICB(r))
					return one(st, args[0])
				}
				unsup("symbolic divisor")
			}
			if trunc && st.decide(Le(IC(0), a)) != 1 {
				unsup("truncated division of a possibly negative number")
			}
			if q {
				st.store(args[0].(Ptr), IDivC(a, bc))
			} else {
				st.store(args[0].(Ptr), IModC(a, bc))
			}
			return one(st, args[0])
		}
	}
	def(divlike(true, false), B+"Div")
	def(divlike(false, false), B+"Mod")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		// z.DivMod(x, y, m): Euclidean quotient and modulus
		x, y := ex.newBig(st, ex.bigOf(st, args[1])), ex.newBig(st, ex.bigOf(st, args[2]))
		var outs []Outcome
		for _, o := range divlike(true, false)(ex, st, []Val{args[0], x, y}, ci) {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			for _, o2 := range divlike(false, false)(ex, o.st, []Val{args[3], x, y}, ci) {
				if !o2.panic {
					o2.ret = Tuple{args[0], args[3]}
				}
				outs = append(outs, o2)
			}
		}
		return outs
	}, B+"DivMod")
	def(divlike(true, true), B+"Quo")
	def(divlike(false, true), B+"Rem")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		if isNilPtr(args[0]) || isNilPtr(args[1]) {
			return panics(st, "nil big.Int in Cmp at "+ex.pos(ci.pos))
		}
		a, b := ex.bigOf(st, args[0]), ex.bigOf(st, args[1])
		switch {
		case st.decide(Eq(a, b)) == 1:
			return one(st, IC(0))
		case st.decide(Lt(a, b)) == 1:
			return one(st, IC(-1))
		case st.decide(Lt(b, a)) == 1:
			return one(st, IC(1))
		}
		return one(st, IIte(Lt(a, b), IC(-1), IIte(Eq(a, b), IC(0), IC(1))))
	}, B+"Cmp")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		a := ex.bigOf(st, args[0])
		return one(st, IIte(Eq(a, IC(0)), IC(0), IIte(Lt(a, IC(0)), IC(-1), IC(1))))
	}, B+"Sign")
	un := func(f func(a *Term) *Term) intr {
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			if isNilPtr(args[0]) || isNilPtr(args[1]) {
				return panics(st, "nil big.Int in "+ci.name+" at "+ex.pos(ci.pos))
			}
			st.store(args[0].(Ptr), f(ex.bigOf(st, args[1])))
			return one(st, args[0])
		}
	}
	def(un(func(a *Term) *Term { return a }), B+"Set")
	def(un(func(a *Term) *Term { return INeg(a) }), B+"Neg")
	setI := func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		st.store(args[0].(Ptr), args[1].(*Term))
		return one(st, args[0])
	}
	def(setI, B+"SetUint64", B+"SetInt64")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		k, ok := st.constInt(args[2])
		if !ok {
			unsup("symbolic shift")
		}
		st.store(args[0].(Ptr), IMul(ICB(new(big.Int).Lsh(big1, uint(k))), ex.bigOf(st, args[1])))
		return one(st, args[0])
	}, B+"Lsh")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		k, ok := st.constInt(args[2])
		if !ok {
			unsup("symbolic shift")
		}
		st.store(args[0].(Ptr), IDivC(ex.bigOf(st, args[1]), new(big.Int).Lsh(big1, uint(k))))
		return one(st, args[0])
	}, B+"Rsh")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		a, b := ex.bigOf(st, args[1]), ex.bigOf(st, args[2])
		ac, ok1 := st.ctx.I(a).isConst()
		bc, ok2 := st.ctx.I(b).isConst()
		if ok1 && ok2 {
			st.store(args[0].(Ptr), ICB(new(big.Int).And(ac, bc)))
			return one(st, args[0])
		}
		if ok1 {
			a, bc, ok2 = b, ac, true
		}
		if ok2 && bc.Sign() >= 0 {
			m := new(big.Int).Add(bc, big1)
			if m.BitLen() == bc.BitLen()+1 {
				st.store(args[0].(Ptr), IModC(a, m))
				return one(st, args[0])
			}
		}
		unsup("symbolic And")
		return nil
	}, B+"And")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		a, b := ex.bigOf(st, args[1]), ex.bigOf(st, args[2])
		ac, ok1 := st.ctx.I(a).isConst()
		bc, ok2 := st.ctx.I(b).isConst()
		if !ok1 || !ok2 {
			unsup("symbolic Or")
		}
		st.store(args[0].(Ptr), ICB(new(big.Int).Or(ac, bc)))
		return one(st, args[0])
	}, B+"Or")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		var m *Term
		a, e := ex.bigOf(st, args[1]), ex.bigOf(st, args[2])
		if !isNilPtr(args[3]) {
			m = ex.bigOf(st, args[3])
		}
		ac, ok1 := st.ctx.I(a).isConst()
		ec, ok2 := st.ctx.I(e).isConst()
		if ok1 && ok2 && (m == nil || m.IsC()) {
			var mk *big.Int
			if m != nil {
				mk = m.K
			}
			st.store(args[0].(Ptr), ICB(new(big.Int).Exp(ac, ec, mk)))
			return one(st, args[0])
		}
		if m != nil && m.IsC() && m.K.Cmp(modR) == 0 && st.decide(Le(IC(0), e)) == 1 {
			st.store(args[0].(Ptr), FInt(FPow(FOf(a), e)))
			return one(st, args[0])
		}
		unsup("symbolic Exp")
		return nil
	}, B+"Exp")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		a, m := ex.bigOf(st, args[1]), ex.bigOf(st, args[2])
		if m.IsC() && m.K.Cmp(modR) == 0 {
			if st.decide(Eq(FOf(a), FCI(0))) == -1 {
				st.store(args[0].(Ptr), FInt(FInv(FOf(a))))
				return one(st, args[0])
			}
		}
		unsup("ModInverse")
		return nil
	}, B+"ModInverse")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s, ok := args[1].(Str)
		base, ok2 := st.constInt(args[2])
		if !ok || !ok2 {
			unsup("SetString of %T", args[1])
		}
		if c, ok := s.Const(); ok {
			v, good := new(big.Int).SetString(c, int(base))
			if !good {
				return one(st, Tuple{Ptr{}, FalseT})
			}
			st.store(args[0].(Ptr), ICB(v))
			return one(st, Tuple{args[0], TrueT})
		}
		if len(s.P) == 1 && s.P[0].Dec != nil && base == 10 {
			st.store(args[0].(Ptr), s.P[0].Dec)
			return one(st, Tuple{args[0], TrueT})
		}
		if len(s.P) == 1 && s.P[0].Hex != nil && base == 16 {
			st.store(args[0].(Ptr), s.P[0].Hex)
			return one(st, Tuple{args[0], TrueT})
		}
		if len(s.P) == 2 && s.P[0].isConst() && s.P[0].C == "0x" && s.P[1].Hex != nil && base == 0 {
			st.store(args[0].(Ptr), s.P[1].Hex)
			return one(st, Tuple{args[0], TrueT})
		}
		unsup("SetString of a symbolic string")
		return nil
	}, B+"SetString")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		if b, is := args[1].(Slice); is && b.Obj != 0 {
			if o, is := st.heap[b.Obj].V.(Opq); is && o.Kind == "hexbytes" {
				if len(b.Path) != 0 || b.Off != IC(0) || b.Len != o.D["len"].(*Term) {
					unsup("part of the decoded bytes of an unknown text")
				}
				st.store(args[0].(Ptr), o.D["nat"])
				return one(st, args[0])
			}
		}
		st.store(args[0].(Ptr), st.ctx.reint(beInt(ex.bytesOf(st, args[1]))))
		return one(st, args[0])
	}, B+"SetBytes")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		t := ex.bigOf(st, args[0])
		s := args[1].(Slice)
		n, ok := st.constInt(s.Len)
		if !ok {
			unsup("FillBytes into symbolic slice")
		}
		a := t // |t| is written
		if st.decide(Le(IC(0), t)) != 1 {
			unsup("FillBytes of a possibly negative number")
		}
		outs := ex.mayPanic(st, BNot(Lt(a, ICB(new(big.Int).Lsh(big1, uint(8*n))))), "FillBytes overflow at "+ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		a = st.ctx.reint(a)
		for i := int64(0); i < n; i++ {
			st.store(Ptr{s.Obj, ext(s.Path, idxElem(st, IAdd(s.Off, IC(i))))}, ByteAt(a, int(i), int(n)))
		}
		return append(outs, Outcome{st: st, ret: s})
	}, B+"FillBytes")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		t := ex.bigOf(st, args[0])
		if t.IsC() {
			var es []Val
			for _, b := range t.K.Bytes() {
				es = append(es, IC(int64(b)))
			}
			return one(st, ex.newSlice(st, es))
		}
		// the length depends on the leading zero bytes: one path for each length
		if n := (bitLenBound(t) + 7) / 8; n > 0 && n <= 32 {
			t = st.ctx.reint(t)
			var outs []Outcome
			for k := n; k >= 0; k-- {
				s2 := st.clone()
				ok := true
				if k < n {
					ok = s2.assume(Lt(t, ICB(new(big.Int).Lsh(big1, uint(8*k)))))
				}
				if k > 0 && ok {
					ok = s2.assume(BNot(Lt(t, ICB(new(big.Int).Lsh(big1, uint(8*(k-1)))))))
				}
				if !ok {
					continue
				}
				var es []Val
				for i := 0; i < k; i++ {
					es = append(es, ByteAt(t, i, k))
				}
				outs = append(outs, Outcome{st: s2, ret: ex.newSlice(s2, es)})
			}
			return outs
		}
		unsup("Bytes of a symbolic integer (variable length)")
		return nil
	}, B+"Bytes")
	strOf := func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		if isNilPtr(args[0]) {
			return one(st, strC("<nil>"))
		}
		t := ex.bigOf(st, args[0])
		if len(args) > 1 {
			if b, ok := st.constInt(args[1]); !ok || b != 10 {
				if t.IsC() && ok {
					return one(st, strC(t.K.Text(int(b))))
				}
				unsup("Text base")
			}
		}
		if t.IsC() {
			return one(st, strC(t.K.String()))
		}
		return one(st, Str{[]StrPart{{Dec: t}}})
	}
	def(strOf, B+"String", B+"Text")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		t := ex.bigOf(st, args[0])
		return one(st, BAnd(Le(IC(0), t), Lt(t, ICB(new(big.Int).Lsh(big1, 64)))))
	}, B+"IsUint64")
	toU := func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		t := ex.bigOf(st, args[0])
		if st.decide(BAnd(Le(IC(0), t), Lt(t, ICB(new(big.Int).Lsh(big1, 63))))) == 1 {
			return one(st, t)
		}
		if strings.HasSuffix(ci.name, "Int64") {
			if t.IsC() {
				return one(st, IC(t.K.Int64()))
			}
			unsup("Int64 of an integer that may exceed it")
		}
		return one(st, IModC(t, new(big.Int).Lsh(big1, 64)))
	}
	def(toU, B+"Uint64", B+"Int64")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		t := ex.bigOf(st, args[0])
		if t.IsC() {
			return one(st, IC(int64(t.K.BitLen())))
		}
		unsup("BitLen of a symbolic integer")
		return nil
	}, B+"BitLen")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		t := ex.bigOf(st, args[0])
		k, ok := st.constInt(args[1])
		if !ok {
			unsup("Bit")
		}
		return one(st, Bits(st.ctx.reint(t), int(k), 1))
	}, B+"Bit")

	// --- strings, fmt, errors, hex, regexp ---
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, ex.errVal("error@"+ex.pos(ci.pos)))
	}, "fmt.Errorf", "errors.New")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, ex.sprintf(st, args, ci))
	}, "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s, p := args[0].(Str), args[1].(Str)
		if pc, ok := p.Const(); ok {
			if c, ok := s.Const(); ok {
				return one(st, BC(strings.HasPrefix(c, pc)))
			}
			switch s.hasPrefix(pc) {
			case 1:
				return one(st, TrueT)
			case -1:
				return one(st, FalseT)
			}
		}
		unsup("HasPrefix of a symbolic string")
		return nil
	}, "strings.HasPrefix")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s, p := args[0].(Str), args[1].(Str)
		if pc, ok := p.Const(); ok {
			switch s.hasPrefix(pc) {
			case 1:
				r, _ := s.sub(len(pc), -1)
				return one(st, Tuple{r, TrueT})
			case -1:
				return one(st, Tuple{s, FalseT})
			}
		}
		unsup("CutPrefix of a symbolic string")
		return nil
	}, "strings.CutPrefix")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s, p := args[0].(Str), args[1].(Str)
		pc, ok := p.Const()
		if !ok {
			unsup("TrimPrefix with symbolic prefix")
		}
		if c, ok := s.Const(); ok {
			return one(st, strC(strings.TrimPrefix(c, pc)))
		}
		switch s.hasPrefix(pc) {
		case 1:
			r, _ := s.sub(len(pc), -1)
			return one(st, r)
		case -1:
			return one(st, s)
		}
		unsup("TrimPrefix of symbolic string")
		return nil
	}, "strings.TrimPrefix")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s := args[0].(Str)
		if c, ok := s.Const(); ok {
			b, err := hex.DecodeString(c)
			if err != nil {
				return one(st, Tuple{ex.newSlice(st, nil), ex.errVal("hex")})
			}
			var es []Val
			for _, x := range b {
				es = append(es, IC(int64(x)))
			}
			return one(st, Tuple{ex.newSlice(st, es), nilErr})
		}
		if len(s.P) == 1 && s.P[0].Hex != nil && s.P[0].NHex%2 == 0 {
			n := s.P[0].NHex / 2
			var es []Val
			for i := 0; i < n; i++ {
				es = append(es, ByteAt(s.P[0].Hex, i, n))
			}
			return one(st, Tuple{ex.newSlice(st, es), nilErr})
		}
		if len(s.P) == 1 && s.P[0].Any != "" {
			ok, nat := s.hexText()
			var outs []Outcome
			if s2 := st.clone(); s2.assume(BNot(ok)) {
				outs = append(outs, Outcome{st: s2, ret: Tuple{ex.newSlice(s2, nil), ex.errVal("hex")}})
			}
			if st.assume(ok) {
				n := IVar("hexlen("+s.P[0].Any+")", big0, new(big.Int).Lsh(big1, 62))
				b := st.alloc(nil, Opq{"hexbytes", map[string]Val{"nat": nat, "len": n}})
				outs = append(outs, Outcome{st: st, ret: Tuple{Slice{Obj: b.Obj, Off: IC(0), Len: n, Cap: n}, nilErr}})
			}
			return outs
		}
		unsup("hex.DecodeString of symbolic string")
		return nil
	}, "encoding/hex.DecodeString")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		c, ok := args[0].(Str).Const()
		if !ok {
			unsup("regexp of symbolic pattern")
		}
		if _, err := regexp.Compile(c); err != nil {
			return panics(st, "bad regexp")
		}
		return one(st, st.alloc(nil, Opq{"regexp", map[string]Val{"p": c}}))
	}, "regexp.MustCompile")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		re := regexp.MustCompile(st.load(args[0].(Ptr)).(Opq).D["p"].(string))
		return one(st, regexpSub(ex, st, re, args[1].(Str)))
	}, "(*regexp.Regexp).FindStringSubmatch")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome { return one(st, args[0]) }, "fmt.Stringer")

	// --- bytes.Buffer ---
	bufWrite := func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		p := args[0].(Ptr)
		o := st.load(p).(Opq)
		bs := ex.bytesOf(st, args[1])
		cur := append(append([]Val{}, o.D["b"].([]Val)...), termVals(bs)...)
		st.store(p, Opq{"bytesBuffer", map[string]Val{"b": cur}})
		return one(st, Tuple{IC(int64(len(bs))), nilErr})
	}
	def(bufWrite, "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		p := args[0].(Ptr)
		o := st.load(p).(Opq)
		cur := append(append([]Val{}, o.D["b"].([]Val)...), args[1])
		st.store(p, Opq{"bytesBuffer", map[string]Val{"b": cur}})
		return one(st, nilErr)
	}, "(*bytes.Buffer).WriteByte")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		o := st.load(args[0].(Ptr)).(Opq)
		return one(st, ex.newSlice(st, o.D["b"].([]Val)))
	}, "(*bytes.Buffer).Bytes")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		o := st.load(args[0].(Ptr)).(Opq)
		return one(st, IC(int64(len(o.D["b"].([]Val)))))
	}, "(*bytes.Buffer).Len")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		st.store(args[0].(Ptr), Opq{"bytesBuffer", map[string]Val{"b": []Val{}}})
		return one(st, nil)
	}, "(*bytes.Buffer).Reset")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome { return one(st, nil) }, "(*bytes.Buffer).Grow")

	// --- hashes ---
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, Arr{termVals(hashBytes("sha256", ex.bytesOf(st, args[0])))})
	}, "crypto/sha256.Sum256")
	keccakIn := func(ex *Exec, st *State, args []Val) []*Term {
		var bs []*Term
		for _, s := range ex.elems(st, args[0]) {
			bs = append(bs, ex.bytesOf(st, s)...)
		}
		return bs
	}
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, Arr{termVals(hashBytes("keccak256", keccakIn(ex, st, args)))})
	}, pEth+".Keccak256Hash")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, ex.newSlice(st, termVals(hashBytes("keccak256", keccakIn(ex, st, args)))))
	}, pEth+".Keccak256")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		var v Val = args[0]
		if p, ok := v.(Ptr); ok {
			v = st.load(p)
		}
		return one(st, ex.newSlice(st, v.(Arr).E))
	}, "(github.com/ethereum/go-ethereum/common.Hash).Bytes")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		var v Val = args[0]
		if p, ok := v.(Ptr); ok {
			v = st.load(p)
		}
		var ts []*Term
		for _, e := range v.(Arr).E {
			ts = append(ts, e.(*Term))
		}
		return one(st, ex.newBig(st, st.ctx.reint(beInt(ts))))
	}, "(github.com/ethereum/go-ethereum/common.Hash).Big")

	// --- fp / fr elements ---
	for _, e := range []struct {
		n string
		m *big.Int
	}{{"fp", modP}, {"fr", modR}} {
		m := e.m
		E := "(*" + pGC + "/" + e.n + ".Element)."
		V := "(" + pGC + "/" + e.n + ".Element)."
		def(setInterface(m, e.n+".Element"), E+"SetInterface")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			if isNilPtr(args[1]) {
				return panics(st, "nil dereference in "+ci.name+" at "+ex.pos(ci.pos))
			}
			return one(st, setScalar(ex, st, args[0], ex.bigOf(st, args[1])))
		}, E+"Set")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			if isNilPtr(args[1]) {
				return panics(st, "nil big.Int in "+ci.name+" at "+ex.pos(ci.pos))
			}
			return one(st, setScalar(ex, st, args[0], IModC(ex.bigOf(st, args[1]), m)))
		}, E+"SetBigInt")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, setScalar(ex, st, args[0], IModC(args[1].(*Term), m)))
		}, E+"SetUint64", E+"SetInt64")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, setScalar(ex, st, args[0], IC(0)))
		}, E+"SetZero")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, setScalar(ex, st, args[0], IC(1)))
		}, E+"SetOne")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			c, ok := args[1].(Str).Const()
			if !ok {
				unsup("Element.SetString of symbolic string")
			}
			v, ok := new(big.Int).SetString(c, 0)
			if !ok {
				return one(st, Tuple{Ptr{}, ex.errVal("SetString")})
			}
			return one(st, Tuple{setScalar(ex, st, args[0], ICB(v.Mod(v, m))), nilErr})
		}, E+"SetString")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, setScalar(ex, st, args[0], IModC(beInt(ex.bytesOf(st, args[1])), m)))
		}, E+"SetBytes")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, setScalar(ex, st, args[1], ex.bigOf(st, args[0])))
		}, E+"BigInt", V+"BigInt", E+"ToBigIntRegular", V+"ToBigIntRegular")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			t := ex.bigOf(st, args[0])
			t = st.ctx.reint(t)
			a := Arr{}
			for i := 0; i < 32; i++ {
				a.E = append(a.E, ByteAt(t, i, 32))
			}
			return one(st, a)
		}, E+"Bytes", V+"Bytes")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, Eq(ex.bigOf(st, args[0]), ex.bigOf(st, args[1])))
		}, E+"Equal", V+"Equal")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, Eq(ex.bigOf(st, args[0]), IC(0)))
		}, E+"IsZero", V+"IsZero")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, Str{[]StrPart{{Dec: ex.bigOf(st, args[0])}}})
		}, E+"String", V+"String")
		arith := func(f func(a, b *Term) *Term) intr {
			return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
				return one(st, setScalar(ex, st, args[0], IModC(f(ex.bigOf(st, args[1]), ex.bigOf(st, args[2])), m)))
			}
		}
		def(arith(func(a, b *Term) *Term { return IAdd(a, b) }), E+"Add")
		def(arith(func(a, b *Term) *Term { return ISub(a, b) }), E+"Sub")
		def(arith(func(a, b *Term) *Term { return IMul(a, b) }), E+"Mul")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			a := ex.bigOf(st, args[1])
			return one(st, setScalar(ex, st, args[0], IModC(IMul(a, a), m)))
		}, E+"Square")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, setScalar(ex, st, args[0], IModC(INeg(ex.bigOf(st, args[1])), m)))
		}, E+"Neg")
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			return one(st, ex.newBig(st, ICB(m)))
		}, pGC+"/"+e.n+".Modulus")
	}
	g2Intrinsics(def)
	g1Intrinsics(def)
	gnarkIntrinsics(def)
}

func regexpSub(ex *Exec, st *State, re *regexp.Regexp, s Str) Val {
	if c, ok := s.Const(); ok {
		m := re.FindStringSubmatch(c)
		if m == nil {
			return Slice{Off: IC(0), Len: IC(0), Cap: IC(0)}
		}
		var es []Val
		for _, x := range m {
			es = append(es, strC(x))
		}
		return ex.newSlice(st, es)
	}
	// run the expression on sample instantiations of the symbolic hex digits;
	// the match must fall on the same part boundaries for each of them
	var idx []int
	var text string
	var bounds map[int]int // offset -> part index
	for i, fill := range []string{"0", "f", "3", "a"} {
		text = ""
		bounds = map[int]int{}
		for j, p := range s.P {
			bounds[len(text)] = j
			switch {
			case p.Hex != nil:
				text += strings.Repeat(fill, p.NHex)
			case p.width() < 0:
				unsup("regexp over a string of unknown width")
			default:
				text += p.C
			}
		}
		bounds[len(text)] = len(s.P)
		m := re.FindStringSubmatchIndex(text)
		if i == 0 {
			idx = m
		} else if fmt.Sprint(m) != fmt.Sprint(idx) {
			unsup("regexp match depends on symbolic digits")
		}
	}
	if idx == nil {
		return Slice{Off: IC(0), Len: IC(0), Cap: IC(0)}
	}
	var es []Val
	for k := 0; k+1 < len(idx); k += 2 {
		lo, hi := idx[k], idx[k+1]
		es = append(es, subStr(s, text, lo, hi, bounds))
	}
	return ex.newSlice(st, es)
}

func subStr(s Str, text string, lo, hi int, bounds map[int]int) Str {
	if lo < 0 {
		return strC("")
	}
	var out Str
	off := 0
	for _, p := range s.P {
		n := len(p.C)
		if p.Hex != nil {
			n = p.NHex
		}
		a, b := off, off+n
		off = b
		if b <= lo || a >= hi {
			continue
		}
		if p.Hex != nil {
			if a < lo || b > hi {
				unsup("regexp group splits symbolic digits")
			}
			out = strCat(out, Str{[]StrPart{p}})
			continue
		}
		x, y := 0, n
		if a < lo {
			x = lo - a
		}
		if b > hi {
			y = hi - a
		}
		out = strCat(out, strC(p.C[x:y]))
	}
	return out
}

// sprintf formats with %s, %d, %v and %x on values whose text is determined;
// anything else is unknown text.
func (ex *Exec) sprintf(st *State, args []Val, ci *CallInfo) Str {
	any := Str{[]StrPart{{Any: freshName("sprintf@" + ex.pos(ci.pos) + "!")}}}
	if !strings.HasSuffix(ci.name, "Sprintf") {
		return any
	}
	fs, ok := args[0].(Str)
	f, ok2 := fs.Const()
	if !ok || !ok2 {
		return any
	}
	vs := ex.variadic(st, args, 1)[1:]
	var out Str
	for n := 0; len(f) > 0; {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out = strCat(out, strC(f))
			break
		}
		out = strCat(out, strC(f[:i]))
		f = f[i+1:]
		if strings.HasPrefix(f, "%") {
			out = strCat(out, strC("%"))
			f = f[1:]
			continue
		}
		j := 0
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			j++
		}
		if j >= len(f) || n >= len(vs) {
			return any
		}
		width, verb := f[:j], f[j]
		f = f[j+1:]
		v, ok := vs[n].(Iface)
		n++
		if !ok || v.T == nil {
			return any
		}
		switch x := v.V.(type) {
		case Str:
			if verb != 's' && verb != 'v' || width != "" {
				return any
			}
			out = strCat(out, x)
			continue
		case ErrV, nil:
			return any
		case *Term, Ptr, SymPtr:
			t, why := ex.varTerm(st, v)
			if _, isPtr := x.(*Term); !isPtr && abstractScalar(derefType(v.T)) != "big" {
				return any
			}
			if why != "" || t.S != SInt {
				return any
			}
			switch {
			case width == "" && (verb == 'd' || verb == 'v'):
				if t.IsC() {
					out = strCat(out, strC(t.K.String()))
				} else {
					out = strCat(out, Str{[]StrPart{{Dec: t}}})
				}
				continue
			case verb == 'x' && strings.HasPrefix(width, "0"):
				w, err := strconv.Atoi(width)
				if err == nil && w > 0 && w <= 64 && st.decide(BAnd(Le(IC(0), t), Lt(t, ICB(new(big.Int).Lsh(big1, uint(4*w)))))) == 1 {
					out = strCat(out, Str{[]StrPart{{Hex: t, NHex: w}}})
					continue
				}
			}
		}
		return any
	}
	return out
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---------- E2 / G2 (constant arithmetic) ----------

type e2 struct{ a, b *big.Int }

func e2mul(x, y e2) e2 {
	r := new(big.Int).Sub(new(big.Int).Mul(x.a, y.a), new(big.Int).Mul(x.b, y.b))
	i := new(big.Int).Add(new(big.Int).Mul(x.a, y.b), new(big.Int).Mul(x.b, y.a))
	return e2{r.Mod(r, modP), i.Mod(i, modP)}
}
func e2add(x, y e2) e2 {
	return e2{new(big.Int).Mod(new(big.Int).Add(x.a, y.a), modP), new(big.Int).Mod(new(big.Int).Add(x.b, y.b), modP)}
}
func e2inv(x e2) e2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.ModInverse(n.Mod(n, modP), modP)
	return e2{new(big.Int).Mod(new(big.Int).Mul(x.a, n), modP), new(big.Int).Mod(new(big.Int).Neg(new(big.Int).Mul(x.b, n)), modP)}
}
func (x e2) eq(y e2) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }

func e2Of(st *State, v Val) e2 {
	ts := structTerms(v, 2)
	a, ok1 := st.ctx.I(ts[0]).isConst()
	b, ok2 := st.ctx.I(ts[1]).isConst()
	if !ok1 || !ok2 {
		unsup("symbolic G2 coordinates")
	}
	return e2{a, b}
}
func (x e2) val() Val { return Struct{[]Val{ICB(x.a), ICB(x.b)}} }

func g2OnCurve(x, y, z e2) bool {
	// y^2 = x^3 + 3/(9+u) z^6
	b := e2mul(e2{big.NewInt(3), big.NewInt(0)}, e2inv(e2{big.NewInt(9), big.NewInt(1)}))
	z2 := e2mul(z, z)
	z6 := e2mul(e2mul(z2, z2), z2)
	return e2mul(y, y).eq(e2add(e2mul(e2mul(x, x), x), e2mul(b, z6)))
}

func g2Intrinsics(def func(intr, ...string)) {
	E2 := "(*" + pGC + "/internal/fptower.E2)."
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		var f []Val
		for _, a := range args[1:3] {
			c, ok := a.(Str).Const()
			if !ok {
				unsup("E2.SetString symbolic")
			}
			v, ok := new(big.Int).SetString(c, 0)
			if !ok {
				return panics(st, "E2.SetString")
			}
			f = append(f, ICB(v.Mod(v, modP)))
		}
		st.store(args[0].(Ptr), Struct{f})
		return one(st, args[0])
	}, E2+"SetString")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		st.store(args[0].(Ptr), Struct{[]Val{IC(1), IC(0)}})
		return one(st, args[0])
	}, E2+"SetOne")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		st.store(args[0].(Ptr), Struct{[]Val{IC(0), IC(0)}})
		return one(st, args[0])
	}, E2+"SetZero")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s := st.load(args[0].(Ptr)).(Struct)
		x, y, z := e2Of(st, s.F[0]), e2Of(st, s.F[1]), e2Of(st, s.F[2])
		return one(st, BC(g2OnCurve(x, y, z)))
	}, "(*"+pGC+".G2Jac).IsOnCurve")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s := st.load(args[0].(Ptr)).(Struct)
		x, y := e2Of(st, s.F[0]), e2Of(st, s.F[1])
		return one(st, BC(g2OnCurve(x, y, e2{big.NewInt(1), big.NewInt(0)})))
	}, "(*"+pGC+".G2Affine).IsOnCurve")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		if isNilPtr(args[1]) {
			return panics(st, "nil G2Jac")
		}
		s := st.load(args[1].(Ptr)).(Struct)
		x, y, z := e2Of(st, s.F[0]), e2Of(st, s.F[1]), e2Of(st, s.F[2])
		zero := e2{big.NewInt(0), big.NewInt(0)}
		if z.eq(zero) {
			x, y = zero, zero
		} else {
			zi := e2inv(z)
			z2 := e2mul(zi, zi)
			x, y = e2mul(x, z2), e2mul(y, e2mul(z2, zi))
		}
		st.store(args[0].(Ptr), Struct{[]Val{x.val(), y.val()}})
		return one(st, args[0])
	}, "(*"+pGC+".G2Affine).FromJacobian")
}

// ---------- G1 ----------

func g1Intrinsics(def func(intr, ...string)) {
	A := "(*" + pGC + ".G1Affine)."
	nilChk := func(f intr) intr {
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			for _, a := range args {
				if isNilPtr(a) {
					return panics(st, "nil pointer in "+ci.name+" at "+ex.pos(ci.pos))
				}
			}
			return f(ex, st, args, ci)
		}
	}
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[0])
		return one(st, onCurveT(st.ctx.reint(x), st.ctx.reint(y)))
	}), A+"IsOnCurve")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[0])
		return one(st, BAnd(Eq(x, IC(0)), Eq(y, IC(0))))
	}), A+"IsInfinity")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[0])
		x2, y2 := ex.affine(st, args[1])
		return one(st, BAnd(Eq(x, x2), Eq(y, y2)))
	}), A+"Equal")
	setPt := func(st *State, recv Val, p *Term) Val {
		st.store(recv.(Ptr), Struct{[]Val{XI(p), YI(p)}})
		return recv
	}
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x1, y1 := ex.affine(st, args[1])
		x2, y2 := ex.affine(st, args[2])
		return one(st, setPt(st, args[0], PAdd(ex.pointOf(st, x1, y1), ex.pointOf(st, x2, y2))))
	}), A+"Add")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x1, y1 := ex.affine(st, args[1])
		x2, y2 := ex.affine(st, args[2])
		return one(st, setPt(st, args[0], PAdd(ex.pointOf(st, x1, y1), PMul(FCI(-1), ex.pointOf(st, x2, y2)))))
	}), A+"Sub")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x1, y1 := ex.affine(st, args[1])
		return one(st, setPt(st, args[0], PMul(FCI(2), ex.pointOf(st, x1, y1))))
	}), A+"Double")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x1, y1 := ex.affine(st, args[1])
		return one(st, setPt(st, args[0], PMul(FCI(-1), ex.pointOf(st, x1, y1))))
	}), A+"Neg")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x1, y1 := ex.affine(st, args[1])
		st.store(args[0].(Ptr), Struct{[]Val{x1, y1}})
		return one(st, args[0])
	}), A+"Set")
	def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x1, y1 := ex.affine(st, args[1])
		k := ex.bigOf(st, args[2])
		return one(st, setPt(st, args[0], PMul(FOf(k), ex.pointOf(st, x1, y1))))
	}), A+"ScalarMultiplication")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, strC("G1Affine"))
	}, A+"String", "("+pGC+".G1Affine).String")

	for _, pk := range []string{pEth + "/bn256", pEth + "/bn256/cloudflare", pEth + "/bn256/google"} {
		G := "(*" + pk + ".G1)."
		get := func(ex *Exec, st *State, v Val) *Term { return st.load(v.(Ptr)).(Opq).D["p"].(*Term) }
		set := func(st *State, recv Val, p *Term) {
			st.store(recv.(Ptr), Opq{"ethG1", map[string]Val{"p": p}})
		}
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			bs := ex.bytesOf(st, args[1])
			if len(bs) < 64 {
				return one(st, Tuple{Slice{Off: IC(0), Len: IC(0), Cap: IC(0)}, ex.errVal("short")})
			}
			x, y := st.ctx.reint(beInt(bs[:32])), st.ctx.reint(beInt(bs[32:64]))
			good := BAnd(Le(x, ICB(pMinus1)), Le(y, ICB(pMinus1)), onCurveT(x, y))
			var outs []Outcome
			if st.decide(good) != 1 {
				s2 := st.clone()
				if s2.assume(BNot(good)) {
					outs = append(outs, Outcome{st: s2, ret: Tuple{Slice{Off: IC(0), Len: IC(0), Cap: IC(0)}, ex.errVal("unmarshal")}})
				}
			}
			if st.assume(good) {
				set(st, args[0], PBase(x, y))
				var rest []Val
				for _, b := range bs[64:] {
					rest = append(rest, b)
				}
				outs = append(outs, Outcome{st: st, ret: Tuple{ex.newSlice(st, rest), nilErr}})
			}
			return outs
		}), G+"Unmarshal")
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			set(st, args[0], PMul(FOf(ex.bigOf(st, args[2])), get(ex, st, args[1])))
			return one(st, args[0])
		}), G+"ScalarMult")
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			set(st, args[0], PAdd(get(ex, st, args[1]), get(ex, st, args[2])))
			return one(st, args[0])
		}), G+"Add")
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			set(st, args[0], PMul(FCI(-1), get(ex, st, args[1])))
			return one(st, args[0])
		}), G+"Neg")
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			set(st, args[0], get(ex, st, args[1]))
			return one(st, args[0])
		}), G+"Set")
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			p := get(ex, st, args[0])
			x, y := st.ctx.reint(XI(p)), st.ctx.reint(YI(p))
			var es []Val
			for i := 0; i < 32; i++ {
				es = append(es, ByteAt(x, i, 32))
			}
			for i := 0; i < 32; i++ {
				es = append(es, ByteAt(y, i, 32))
			}
			return one(st, ex.newSlice(st, es))
		}), G+"Marshal")
		def(nilChk(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			p := get(ex, st, args[0])
			x := XI(p)
			// the point at infinity prints as (0, 1)
			y := IIte(Eq(p, PInf), IC(1), YI(p))
			return one(st, Str{[]StrPart{{C: "bn256.G1("}, {Hex: st.ctx.reint(x), NHex: 64}, {C: ", "}, {Hex: st.ctx.reint(y), NHex: 64}, {C: ")"}}})
		}), G+"String")
	}
}

// ---------- gnark ----------

func gnarkIntrinsics(def func(intr, ...string)) {
	retObj := func(kind string, withErr bool) intr {
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			d := map[string]Val{"buf": []Val{}}
			var ts []string
			for _, t := range tArgs(ci.fn) {
				ts = append(ts, shortField(t))
			}
			d["targs"] = strings.Join(ts, ",")
			var r Val = st.alloc(nil, Opq{kind, d})
			res := ci.fn.Signature.Results()
			if _, ok := res.At(0).Type().Underlying().(*types.Interface); ok {
				r = Iface{ex.opaquePtr, r}
			}
			if withErr {
				return one(st, Tuple{r, nilErr})
			}
			return one(st, r)
		}
	}
	// emulated arithmetic
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		m := emulModulus(tArgs(ci.fn)[0])
		if m == nil {
			unsup("emulated field %s", tArgs(ci.fn)[0])
		}
		if isCircuitVar(args[0]) {
			ex.hit("conversion of " + originOf(args[0]) + " to an emulated constant")
			return one(st, UFInt("havocemul", big0, new(big.Int).Sub(m, big1), IC(0)))
		}
		t, why := ex.varTerm(st, args[0])
		if why != "" {
			return panics(st, "emulated.ValueOf: "+why)
		}
		return one(st, IModC(t, m))
	}, pG+"/std/math/emulated.ValueOf")
	for _, f := range []string{"BN254Fp", "BN254Fr", "Secp256k1Fp", "Secp256k1Fr"} {
		def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			m := emulModulus(ci.fn.Signature.Recv().Type())
			return one(st, ex.newBig(st, ICB(m)))
		}, "("+pG+"/std/math/emulated/emparams."+f+").Modulus")
	}
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, Opq{"curveparams:" + shortField(tArgs(ci.fn)[0]), nil})
	}, pG+"/std/algebra/emulated/sw_emulated.GetCurveParams")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		ta := tArgs(ci.fn)
		o, ok := args[1].(Opq)
		if !ok || o.Kind != "curveparams:"+shortField(ta[0]) {
			unsup("curve parameters that are not those of the base field")
		}
		return one(st, Tuple{st.alloc(nil, Opq{"curve", map[string]Val{"base": shortField(ta[0]), "scalar": shortField(ta[1])}}), nilErr})
	}, pG+"/std/algebra/emulated/sw_emulated.New")
	C := "(*" + pG + "/std/algebra/emulated/sw_emulated.Curve[B, S])."
	mkPt := func(st *State, p *Term) Val {
		return st.alloc(nil, Struct{[]Val{XI(p), YI(p)}})
	}
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[1])
		k := ex.bigOf(st, args[2])
		if len(args) > 3 {
			if s, ok := args[3].(Slice); ok && s.Obj != 0 {
				ex.notes["ScalarMul called with algebra options"] = true
			}
		}
		var outs []Outcome
		if ex.mode == Complete {
			exc := BOr(BNot(smulOK(k)), BAnd(Eq(x, IC(0)), Eq(y, IC(0))), BNot(onCurveT(x, y)))
			outs = ex.ecExceptional(st, exc, "ScalarMul outside its complete domain", ci)
			if st.dead {
				return outs
			}
		}
		return append(outs, Outcome{st: st, ret: mkPt(st, PMul(FOf(k), ex.pointOf(st, x, y)))})
	}, C+"ScalarMul")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[1])
		x2, y2 := ex.affine(st, args[2])
		return one(st, mkPt(st, PAdd(ex.pointOf(st, x, y), ex.pointOf(st, x2, y2))))
	}, C+"AddUnified")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[1])
		x2, y2 := ex.affine(st, args[2])
		// incomplete addition: distinct, non-opposite, finite operands
		p, q := ex.pointOf(st, x, y), ex.pointOf(st, x2, y2)
		exc := BOr(Eq(x, x2), Eq(p, PInf), Eq(q, PInf))
		if ex.mode == Complete {
			outs := ex.ecExceptional(st, exc, "incomplete addition", ci)
			if st.dead {
				return outs
			}
			return append(outs, Outcome{st: st, ret: mkPt(st, PAdd(p, q))})
		}
		if st.decide(exc) == -1 {
			return one(st, mkPt(st, PAdd(p, q)))
		}
		return one(st, mkPt(st, ite(SPt, exc, UF(SPt, "incomplete_add", x, y, x2, y2), PAdd(p, q))))
	}, C+"Add", C+"add")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[1])
		return one(st, mkPt(st, PMul(FCI(-1), ex.pointOf(st, x, y))))
	}, C+"Neg")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[1])
		x2, y2 := ex.affine(st, args[2])
		outs := ex.constrain(st, BAnd(Eq(x, x2), Eq(y, y2)), "curve AssertIsEqual", ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		return append(outs, Outcome{st: st})
	}, C+"AssertIsEqual")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		x, y := ex.affine(st, args[1])
		outs := ex.constrain(st, onCurveT(st.ctx.reint(x), st.ctx.reint(y)), "curve AssertIsOnCurve", ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		return append(outs, Outcome{st: st})
	}, C+"AssertIsOnCurve")
	def(multiScalarMul, C+"MultiScalarMul")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		// p, params, msg, sig
		x, y := ex.affine(st, args[0])
		msg := ex.bigOf(st, args[3])
		rs := structTerms(st.load(args[4].(Ptr)), 2)
		o, _ := args[2].(Opq)
		name := "ecdsa"
		for _, t := range tArgs(ci.fn) {
			name += ":" + shortField(t)
		}
		if o.Kind != "curveparams:"+shortField(tArgs(ci.fn)[0]) {
			unsup("ecdsa with foreign curve parameters")
		}
		outs := ex.constrain(st, Pred(name, x, y, msg, rs[0], rs[1]), "ecdsa.Verify", ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		return append(outs, Outcome{st: st})
	}, "("+pG+"/std/signature/ecdsa.PublicKey[T, S]).Verify")
	// uints
	def(retObj("binaryfield", true), pG+"/std/math/uints.New")
	F := "(*" + pG + "/std/math/uints.BinaryField[T])."
	u8 := func(v Val) Val { return Struct{[]Val{v, TrueT}} }
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		if isCircuitVar(args[1]) {
			return one(st, u8(args[1]))
		}
		t, why := ex.varTerm(st, args[1])
		if why != "" {
			return panics(st, "ByteValueOf: "+why)
		}
		outs := ex.constrain(st, Le(canonT(t), IC(255)), "ByteValueOf range check", ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		return append(outs, Outcome{st: st, ret: u8(args[1])})
	}, F+"ByteValueOf")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		a, b := args[1].(Struct).F[0], args[2].(Struct).F[0]
		if isCircuitVar(a) || isCircuitVar(b) {
			return one(st, nil)
		}
		ts, why := ex.apiArgs(st, []Val{a, b})
		if why != "" {
			return panics(st, "ByteAssertEq: "+why)
		}
		c := fldEq(st, ts[0], ts[1])
		if ex.mode == Complete {
			c = Eq(ts[0], ts[1])
		}
		outs := ex.constrain(st, c, "ByteAssertEq", ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		return append(outs, Outcome{st: st})
	}, F+"ByteAssertEq")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		var es []Val
		for _, b := range ex.bytesOf(st, args[0]) {
			es = append(es, u8(Iface{types.Typ[types.Uint8], b}))
		}
		return one(st, ex.newSlice(st, es))
	}, pG+"/std/math/uints.NewU8Array")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, u8(Iface{types.Typ[types.Uint8], args[0]}))
	}, pG+"/std/math/uints.NewU8")
	// hash gadgets
	def(retObj("sha256", true), pG+"/std/hash/sha2.New")
	def(retObj("keccak256", true), pG+"/std/hash/sha3.NewLegacyKeccak256")
	objMethods = map[string]intr{}
	for _, h := range []string{"sha256", "keccak256"} {
		h := h
		objMethods[h+".Write"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			p := args[0].(Ptr)
			o := st.load(p).(Opq)
			buf := append([]Val{}, o.D["buf"].([]Val)...)
			for _, e := range ex.seqElems(st, args[1]) {
				if q, ok := e.(symSeq); ok {
					q.Gen = q.Gen.(Struct).F[0]
					buf = append(buf, q)
					continue
				}
				buf = append(buf, e.(Struct).F[0])
			}
			st.store(p, Opq{h, map[string]Val{"buf": buf}})
			return one(st, nil)
		}
		objMethods[h+".Reset"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			st.store(args[0].(Ptr), Opq{h, map[string]Val{"buf": []Val{}}})
			return one(st, nil)
		}
		objMethods[h+".Size"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome { return one(st, IC(32)) }
		objMethods[h+".Sum"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			o := st.load(args[0].(Ptr)).(Opq)
			var es []Val
			var in []*Term
			for _, v := range o.D["buf"].([]Val) {
				if isCircuitVar(v) {
					for i := 0; i < 32; i++ {
						es = append(es, u8(ex.circuitVar()))
					}
					return one(st, ex.newSlice(st, es))
				}
				q, isSeq := v.(symSeq)
				if isSeq {
					v = q.Gen
				}
				t, why := ex.varTerm(st, v)
				if why != "" {
					return panics(st, h+" gadget: "+why)
				}
				if isSeq {
					t = seqTerm(q.Len, t)
				}
				in = append(in, canonT(t))
			}
			for _, b := range hashBytes(h, in) {
				es = append(es, u8(ex.newVar(st, b)))
			}
			return one(st, ex.newSlice(st, es))
		}
	}
	// the standard library's and go-ethereum's hashers
	hasher := func(h string) intr {
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			p := st.alloc(nil, Opq{"n" + h, map[string]Val{"buf": []Val{}}})
			return one(st, Iface{types.NewPointer(types.NewStruct(nil, nil)), p})
		}
	}
	def(hasher("sha256"), "crypto/sha256.New")
	def(hasher("keccak256"), "golang.org/x/crypto/sha3.NewLegacyKeccak256", pEth+".NewKeccakState")
	for _, h := range []string{"sha256", "keccak256"} {
		h, k := h, "n"+h
		write := func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			p := args[0].(Ptr)
			buf := append([]Val{}, st.load(p).(Opq).D["buf"].([]Val)...)
			bs := ex.bytesOf(st, args[1])
			st.store(p, Opq{k, map[string]Val{"buf": append(buf, termVals(bs)...)}})
			return one(st, Tuple{IC(int64(len(bs))), nilErr})
		}
		objMethods[k+".Write"] = write
		objMethods[k+".Reset"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			st.store(args[0].(Ptr), Opq{k, map[string]Val{"buf": []Val{}}})
			return one(st, nil)
		}
		objMethods[k+".Size"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome { return one(st, IC(32)) }
		objMethods[k+":read.Reset"] = objMethods[k+".Reset"]
		digest := func(st *State, p Ptr) []Val {
			var in []*Term
			for _, v := range st.load(p).(Opq).D["buf"].([]Val) {
				in = append(in, v.(*Term))
			}
			return termVals(hashBytes(h, in))
		}
		objMethods[k+".Sum"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			es := append([]Val{}, ex.elems(st, args[1])...)
			return one(st, ex.newSlice(st, append(es, digest(st, args[0].(Ptr))...)))
		}
		objMethods[k+".Read"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			d := args[1].(Slice)
			if n, ok := st.constInt(d.Len); !ok || n != 32 {
				unsup("partial read of a digest")
			}
			for i, v := range digest(st, args[0].(Ptr)) {
				st.store(Ptr{d.Obj, ext(d.Path, idxElem(st, IAdd(d.Off, IC(int64(i)))))}, v)
			}
			st.store(args[0].(Ptr), Opq{k + ":read", nil})
			return one(st, Tuple{IC(32), nilErr})
		}
	}
	// pairing
	def(retObj("pairing", true), pG+"/std/algebra/emulated/sw_bn254.NewPairing")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		// length mismatch or emptiness is reported as an error by the library
		ps, qs := ex.elems(st, args[1]), ex.elems(st, args[2])
		if len(ps) == 0 || len(ps) != len(qs) {
			return one(st, ex.errVal("invalid inputs sizes"))
		}
		for _, p := range append(append([]Val{}, ps...), qs...) {
			if isNilPtr(p) {
				return panics(st, "nil point in PairingCheck")
			}
		}
		outs := ex.constrain(st, pairingPred(ex, st, ps, qs), "PairingCheck", ex.pos(ci.pos))
		if st.dead {
			return outs
		}
		return append(outs, Outcome{st: st, ret: nilErr})
	}, "("+pG+"/std/algebra/emulated/sw_bn254.Pairing).PairingCheck", "(*"+pG+"/std/algebra/emulated/sw_bn254.Pairing).PairingCheck")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return one(st, args[0])
	}, pG+"/std/algebra/emulated/sw_bn254.NewG1Affine")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s := args[0].(Struct)
		z := zeroVal(ci.fn.Signature.Results().At(0).Type()).(Struct)
		f := append([]Val{}, z.F...)
		f[0] = Struct{[]Val{s.F[0], s.F[1]}}
		return one(st, Struct{f})
	}, pG+"/std/algebra/emulated/sw_bn254.NewG2Affine", pG+"/std/algebra/emulated/sw_bn254.NewG2AffineFixed")
	// solver, backend
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		for _, f := range ex.elems(st, args[0]) {
			if fv, ok := f.(FuncV); ok && fv.Fn != nil {
				ex.registered[fv.Fn.Name()] = true
			}
		}
		return one(st, nil)
	}, pG+"/constraint/solver.RegisterHint")
	driverIntrinsics(def)
}

// ecExceptional: an exceptional case of an incomplete curve gadget.  In
// completeness proofs it is excluded by hypothesis when the contract says so.
func (ex *Exec) ecExceptional(st *State, exc *Term, why string, ci *CallInfo) []Outcome {
	if ex.assumeNonExceptional {
		ex.notes["hypothesis: "+why+" does not occur"] = true
		st.assume(BNot(exc))
		return nil
	}
	return ex.mayPanic(st, exc, why+" at "+ex.pos(ci.pos))
}

func pairingPred(ex *Exec, st *State, ps, qs []Val) *Term {
	type pr struct {
		k    string
		args []*Term
	}
	var prs []pr
	for i := range ps {
		x, y := ex.affine(st, ps[i])
		x, y = st.ctx.reint(x), st.ctx.reint(y)
		var q []*Term
		var flat func(v Val)
		flat = func(v Val) {
			switch u := v.(type) {
			case *Term:
				q = append(q, st.ctx.reint(u))
			case Struct:
				for _, f := range u.F {
					flat(f)
				}
			}
		}
		flat(getPath(st.load(qs[i].(Ptr)), []PathElem{{I: 0}}, st))
		args := append([]*Term{x, y}, q...)
		k := ""
		for _, a := range args {
			k += st.ctx.Key(a) + ","
		}
		prs = append(prs, pr{k, args})
	}
	sort.SliceStable(prs, func(i, j int) bool { return prs[i].k < prs[j].k })
	var all []*Term
	for _, p := range prs {
		all = append(all, p.args...)
	}
	t := Pred(fmt.Sprintf("pairing%d", len(prs)), all...)
	return t
}

// smulOK: the scalar is in the domain where gnark's (incomplete) ScalarMul has
// an honest run; false at least for 0, -1 and -2.
func smulOK(k *Term) *Term { return Pred("smulok", FInt(FOf(k))) }

func multiScalarMul(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
	pv, sv := args[1].(Slice), args[2].(Slice)
	// no point: the zero point, whatever the scalars
	ln := BNot(Eq(pv.Len, sv.Len))
	empty := Eq(pv.Len, IC(0))
	var outs []Outcome
	res := func(s *State, p *Term) Outcome {
		return Outcome{st: s, ret: Tuple{s.alloc(nil, Struct{[]Val{XI(p), YI(p)}}), nilErr}}
	}
	if st.decide(empty) != -1 {
		s2 := st.clone()
		if s2.assume(empty) {
			outs = append(outs, res(s2, PInf))
		}
		if !st.assume(Le(IC(1), pv.Len)) {
			return outs
		}
	}
	switch st.decide(ln) {
	case 1:
		return one(st, Tuple{Ptr{}, ex.errVal("mismatching points and scalars slice lengths")})
	case 0:
		s2 := st.clone()
		if s2.assume(ln) {
			outs = append(outs, Outcome{st: s2, ret: Tuple{Ptr{}, ex.errVal("mismatching points and scalars slice lengths")}})
		}
		if !st.assume(BNot(ln)) {
			return outs
		}
	}
	if n, ok := st.constInt(pv.Len); ok {
		ps, ss := ex.elems(st, pv), ex.elems(st, sv)
		sum := []*Term{}
		for i := int64(0); i < n; i++ {
			if isNilPtr(ps[i]) || isNilPtr(ss[i]) {
				return append(outs, Outcome{st: st, panic: true, why: "nil operand of MultiScalarMul"})
			}
			x, y := ex.affine(st, ps[i])
			k := ex.bigOf(st, ss[i])
			if ex.mode == Complete {
				exc := BOr(BNot(smulOK(k)), BAnd(Eq(x, IC(0)), Eq(y, IC(0))), BNot(onCurveT(x, y)))
				outs = append(outs, ex.ecExceptional(st, exc, "ScalarMul outside its complete domain", ci)...)
				if st.dead {
					return outs
				}
			}
			sum = append(sum, PMul(FOf(k), ex.pointOf(st, x, y)))
		}
		return append(outs, res(st, PAdd(sum...)))
	}
	// symbolic length: sum over i of [s_i]P_i as an uninterpreted sum of the
	// summand, identified by its body as a function of the index
	idx := IVar("sum_i", nil, nil)
	s2 := st.clone()
	s2.assume(Le(IC(0), idx))
	s2.assume(Lt(idx, pv.Len))
	pp := s2.load(Ptr{pv.Obj, ext(pv.Path, idxElem(s2, IAdd(pv.Off, idx)))})
	sp := s2.load(Ptr{sv.Obj, ext(sv.Path, idxElem(s2, IAdd(sv.Off, idx)))})
	x, y := ex.affine(s2, pp)
	k := ex.bigOf(s2, sp)
	sum := UF(SPt, "sum_smul", pv.Len, x, y, k)
	if ex.mode == Complete {
		// every term and every partial sum in the domain of gnark's formulas
		outs = append(outs, ex.ecExceptional(st, BNot(Pred("msmok", XI(sum))), "MultiScalarMul outside its complete domain", ci)...)
		if st.dead {
			return outs
		}
	}
	return append(outs, res(st, sum))
}
