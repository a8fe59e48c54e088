package main

// Contract files: parsing, and the assertion language.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Labels []string
	Src    string
	E      ast.Expr
	Line   string
}

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Shapes   map[string]string
	Cases    map[string][]string
	Requires []Clause
	Ensures  []Clause
	OnErr    []Clause
	Rejects  []Clause
	Accepts  []Clause
	Modifies []Clause
	Compiles, Propagates []Clause
	poison   bool
	effDone  map[Mode]bool
	NeverErr bool
	NoCall   bool // verified, never substituted at calls
	Trusted  bool
	FrameLb  []string
	Complete bool // run in complete mode only
	Hyp      bool // completeness under non-exceptional curve operations
	File     string
	failed   bool
	status   int // 0 not verified, 1 in progress, 2 ok, -1 failed
}

type macro struct {
	params []string
	e      ast.Expr
}

var contracts = map[string]*Contract{}
var contractOrder []string
var macros = map[string]*macro{}

var funcRe = regexp.MustCompile(`^func\s+([\w.$*#]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)
var lblRe = regexp.MustCompile(`^\[([\w, ]*)\]\s*(.*)$`)

var watchRe = regexp.MustCompile(`\b(?:before|after)\(([\w]+),`)

func splitList(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			r = append(r, x)
		}
	}
	return r
}

func loadContracts(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := parseContracts(filepath.Base(f), string(b)); err != nil {
			return fmt.Errorf("%s: %v", f, err)
		}
	}
	return nil
}

func parseContracts(file, src string) error {
	for _, m := range watchRe.FindAllStringSubmatch(src, -1) {
		watched[m[1]] = true
	}
	// join continuation lines (ending in a backslash)
	var lines []string
	var nums []int
	cont := false
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		l = strings.TrimRight(l, " \t")
		if cont {
			lines[len(lines)-1] += " " + strings.TrimSpace(strings.TrimSuffix(l, "\\"))
		} else {
			lines = append(lines, strings.TrimSuffix(l, "\\"))
			nums = append(nums, i+1)
		}
		cont = strings.HasSuffix(l, "\\")
	}
	var cur *Contract
	var curT *TypeContract
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		bad := func(e interface{}) error { return fmt.Errorf("line %d: %v: %s", nums[i], e, t) }
		if strings.HasPrefix(t, "def ") {
			k := strings.SplitN(t[4:], "=", 2)
			m := regexp.MustCompile(`^\s*(\w+)\(([^)]*)\)\s*$`).FindStringSubmatch(k[0])
			if len(k) != 2 || m == nil {
				return bad("bad def")
			}
			e, err := parser.ParseExpr(k[1])
			if err != nil {
				return bad(err)
			}
			macros[m[1]] = &macro{splitList(m[2]), e}
			continue
		}
		if strings.HasPrefix(t, "func ") {
			m := funcRe.FindStringSubmatch(t)
			if m == nil {
				return bad("bad func header")
			}
			cur = &Contract{Key: m[1], Params: splitList(m[2]), Results: splitList(m[3]), Shapes: map[string]string{}, Cases: map[string][]string{}, File: file}
			if contracts[m[1]] != nil {
				return bad("duplicate contract")
			}
			curT = nil
			contracts[m[1]] = cur
			contractOrder = append(contractOrder, m[1])
			continue
		}
		if strings.HasPrefix(t, "type ") {
			curT = &TypeContract{key: strings.TrimSpace(t[5:])}
			typeContracts = append(typeContracts, curT)
			cur = nil
			continue
		}
		if curT != nil {
			m := regexp.MustCompile(`^(public|inputs)\s+\[([\w, ]*)\]\s*([\w.]*)$`).FindStringSubmatch(t)
			if m == nil || (m[1] == "public") != (m[3] != "") {
				return bad("bad type clause")
			}
			curT.clauses = append(curT.clauses, typeClause{splitList(m[2]), m[1], m[3]})
			continue
		}
		if cur == nil {
			return bad("clause outside a contract")
		}
		w := strings.SplitN(t, " ", 2)
		arg := ""
		if len(w) == 2 {
			arg = strings.TrimSpace(w[1])
		}
		clause := func() (Clause, error) {
			c := Clause{Line: fmt.Sprintf("%s:%d", file, nums[i])}
			if m := lblRe.FindStringSubmatch(arg); m != nil {
				c.Labels = splitList(m[1])
				arg = m[2]
			}
			arg = strings.TrimPrefix(arg, "when ")
			c.Src = arg
			e, err := parser.ParseExpr(arg)
			c.E = e
			return c, err
		}
		switch w[0] {
		case "shape":
			k := strings.SplitN(arg, " ", 2)
			cur.Shapes[k[0]] = strings.TrimSpace(k[1])
		case "cases":
			k := strings.SplitN(arg, " ", 2)
			for _, x := range strings.Split(k[1], "|") {
				cur.Cases[k[0]] = append(cur.Cases[k[0]], strings.TrimSpace(x))
			}
		case "requires", "ensures", "onerr", "accepts", "rejects":
			c, err := clause()
			if err != nil {
				return bad(err)
			}
			switch w[0] {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "onerr":
				cur.OnErr = append(cur.OnErr, c)
			case "rejects":
				cur.Rejects = append(cur.Rejects, c)
			default:
				cur.Accepts = append(cur.Accepts, c)
			}
		case "modifies":
			for _, x := range splitTop(arg) {
				e, err := parser.ParseExpr(x)
				if err != nil {
					return bad(err)
				}
				cur.Modifies = append(cur.Modifies, Clause{Src: x, E: e})
			}
		case "frame":
			m := lblRe.FindStringSubmatch(arg)
			if m == nil {
				return bad("frame [labels]")
			}
			cur.FrameLb = splitList(m[1])
		case "compiles", "propagates":
			m := lblRe.FindStringSubmatch(arg)
			if m == nil {
				return bad(w[0] + " [labels]")
			}
			cl := Clause{Labels: splitList(m[1]), Line: fmt.Sprintf("%s:%d", file, nums[i])}
			if w[0] == "compiles" {
				cur.Compiles = append(cur.Compiles, cl)
			} else {
				cur.Propagates = append(cur.Propagates, cl)
			}
		case "never_err":
			cur.NeverErr = true
		case "nocall":
			cur.NoCall = true
		case "nonexceptional":
			cur.Hyp = true
		default:
			return bad("unknown clause")
		}
	}
	return nil
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

// funcKey is the contract key of a function of the package under check.
func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

// labels of a clause, for a property filter
func (c *Contract) allLabels() map[string]bool {
	m := map[string]bool{}
	for _, cs := range [][]Clause{c.Ensures, c.OnErr, c.Accepts, c.Rejects} {
		for _, x := range cs {
			for _, l := range x.Labels {
				m[l] = true
			}
		}
	}
	for _, l := range c.FrameLb {
		m[l] = true
	}
	return m
}

// ---------- evaluation ----------

type specErr struct{ msg string }

func sfail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// specification-level values
type numLit struct{ v *big.Int }
type list []interface{}
type locV struct { // a memory location (for modifies)
	p      Ptr
	ranged bool
	lo, hi *Term // element range of the slice/array at p
}

type Env struct {
	ex        *Exec
	pre, post *State
	cur       *State
	vars      map[string]interface{}
	outcome   *Outcome
	depth     int
}

func (e *Env) with(k string, v interface{}) *Env {
	n := *e
	n.vars = map[string]interface{}{}
	for a, b := range e.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

func (e *Env) Bool(x ast.Expr) *Term {
	v := e.Eval(x)
	if b, ok := v.(*Term); ok && b.S == SBool {
		return b
	}
	sfail("not a proposition: %T", v)
	return nil
}

func (e *Env) scalar(v interface{}) interface{} {
	v = untyped(v)
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			sfail("nil interface used as a number")
		}
		t, why := e.ex.varTerm(e.cur, x)
		if why != "" {
			sfail("%s", why)
		}
		return t
	case Ptr:
		if x.Obj == 0 {
			sfail("nil pointer")
		}
		if t, ok := e.cur.load(x).(*Term); ok {
			return t
		}
	case SymPtr:
		if t, ok := x.V.(*Term); ok {
			return t
		}
	case Struct:
		// emulated or single-field wrappers (uints.U8)
		if len(x.F) == 2 {
			if _, ok := x.F[0].(Iface); ok {
				return e.scalar(x.F[0])
			}
		}
	}
	return v
}

func (e *Env) Int(x ast.Expr) *Term { return e.toInt(e.Eval(x)) }
func (e *Env) toInt(v interface{}) *Term {
	switch y := e.scalar(v).(type) {
	case numLit:
		return ICB(y.v)
	case *Term:
		if y.S == SInt {
			return y
		}
		if y.S == SBool {
			return ofBool(y)
		}
	}
	sfail("integer expected, got %T", v)
	return nil
}
func (e *Env) Fld(x ast.Expr) *Term { return e.toFld(e.Eval(x)) }
func (e *Env) toFld(v interface{}) *Term {
	switch y := e.scalar(v).(type) {
	case numLit:
		return FC(y.v)
	case *Term:
		if y.S == SFld {
			return y
		}
		if y.S == SInt {
			return FOf(y)
		}
	}
	sfail("field element expected, got %T", v)
	return nil
}
func (e *Env) Pt(x ast.Expr) *Term {
	v := e.Eval(x)
	if t, ok := v.(*Term); ok && t.S == SPt {
		return t
	}
	sfail("point expected, got %T", v)
	return nil
}
func (e *Env) conc(x ast.Expr) int {
	t := e.Int(x)
	k, ok := e.cur.constInt(t)
	if !ok {
		sfail("concrete integer expected")
	}
	return int(k)
}
func (e *Env) List(x ast.Expr) list { return e.toList(e.Eval(x)) }
func (e *Env) toList(v interface{}) list {
	v = untyped(v)
	switch y := v.(type) {
	case list:
		return y
	case Slice:
		var r list
		for _, x := range e.ex.elems(e.cur, y) {
			r = append(r, x)
		}
		return r
	case Arr:
		var r list
		for _, x := range y.E {
			r = append(r, x)
		}
		return r
	case Ptr:
		return e.toList(e.cur.load(y))
	}
	sfail("list expected, got %T", v)
	return nil
}
func (e *Env) ints(v interface{}) []*Term {
	var r []*Term
	if s, ok := untyped(v).(Slice); ok {
		for _, x := range e.ex.seqElems(e.cur, s) {
			if q, ok := x.(symSeq); ok {
				r = append(r, canonT(seqTerm(q.Len, e.toInt(q.Gen))))
				continue
			}
			r = append(r, e.toInt(x))
		}
		return r
	}
	for _, x := range e.toList(v) {
		r = append(r, e.toInt(x))
	}
	return r
}

func (e *Env) Eval(x ast.Expr) interface{} {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.Eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				sfail("number %s", n.Value)
			}
			return numLit{v}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return strC(s)
		}
	case *ast.Ident:
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return TrueT
		case "false":
			return FalseT
		case "nil":
			return nilErr
		case "r":
			return numLit{modR}
		case "p":
			return numLit{modP}
		case "inf":
			return PInf
		}
		if m, ok := macros[n.Name]; ok && len(m.params) == 0 {
			return e.Eval(m.e)
		}
		// package-level variable
		for g, id := range e.ex.globals {
			if g.Name() == n.Name {
				return e.cur.load(Ptr{Obj: id})
			}
		}
		sfail("unknown name %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return BNot(e.Bool(n.X))
		case token.SUB:
			v := e.scalar(e.Eval(n.X))
			switch y := v.(type) {
			case numLit:
				return numLit{new(big.Int).Neg(y.v)}
			case *Term:
				switch y.S {
				case SInt:
					return INeg(y)
				case SFld:
					return FNeg(y)
				case SPt:
					return PMul(FCI(-1), y)
				}
			}
		}
	case *ast.StarExpr:
		v := e.Eval(n.X)
		if p, ok := v.(Ptr); ok {
			if p.Obj == 0 {
				sfail("nil pointer")
			}
			return e.cur.load(p)
		}
		if p, ok := v.(SymPtr); ok {
			return p.V
		}
		sfail("deref of %T", v)
	case *ast.SelectorExpr:
		v := e.Eval(n.X)
		return e.field(v, n.Sel.Name, x)
	case *ast.IndexExpr:
		v := e.Eval(n.X)
		idx := e.Int(n.Index)
		return e.index(v, idx)
	case *ast.SliceExpr:
		l := e.List(n.X)
		lo, hi := 0, len(l)
		if n.Low != nil {
			lo = e.conc(n.Low)
		}
		if n.High != nil {
			hi = e.conc(n.High)
		}
		if lo < 0 || hi > len(l) || lo > hi {
			sfail("slice bounds")
		}
		return l[lo:hi]
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.CallExpr:
		id, ok := n.Fun.(*ast.Ident)
		if !ok {
			sfail("bad call")
		}
		return e.callSpec(id.Name, n)
	}
	sfail("unsupported expression")
	return nil
}

// typed values: field selection needs the Go type; it is carried in fieldIdx
func (e *Env) field(v interface{}, name string, x ast.Expr) interface{} {
	if f, ok := v.(typed); ok {
		t := f.t
		val := f.v
		if p, ok := t.Underlying().(*types.Pointer); ok {
			pp, ok := val.(Ptr)
			if !ok || pp.Obj == 0 {
				sfail("nil pointer in %s", name)
			}
			val = e.cur.load(pp)
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			sfail("field %s of %s", name, t)
		}
		s, ok := val.(Struct)
		if !ok {
			sfail("field %s of %T", name, val)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return mkTyped(s.F[i], st.Field(i).Type())
			}
		}
		sfail("no field %s", name)
	}
	sfail("field %s of untyped value %T", name, v)
	return nil
}

// typed pairs a structured value with its Go type so that fields can be named
type typed struct {
	v Val
	t types.Type
}

func mkTyped(v Val, t types.Type) interface{} {
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		if abstractScalar(p.Elem()) != "" {
			return v
		}
		u = p.Elem().Underlying()
		if _, ok := u.(*types.Struct); ok {
			return typed{v, t}
		}
		return v
	}
	if abstractScalar(t) != "" {
		return v
	}
	switch u.(type) {
	case *types.Struct, *types.Slice, *types.Array:
		return typed{v, t}
	}
	return v
}

func untyped(v interface{}) interface{} {
	if t, ok := v.(typed); ok {
		return t.v
	}
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func (e *Env) index(v interface{}, idx *Term) interface{} {
	var et types.Type
	if t, ok := v.(typed); ok {
		et = elemType(t.t)
		v = t.v
	}
	wrap := func(x Val) interface{} {
		if et != nil {
			return mkTyped(x, et)
		}
		return x
	}
	switch y := v.(type) {
	case list:
		k, ok := e.cur.constInt(idx)
		if !ok || k < 0 || int(k) >= len(y) {
			sfail("list index")
		}
		return y[k]
	case Slice:
		return wrap(e.cur.load(Ptr{y.Obj, ext(y.Path, idxElem(e.cur, IAdd(y.Off, idx)))}))
	case Arr:
		return wrap(getPath(y, []PathElem{idxElem(e.cur, idx)}, e.cur))
	case Ptr:
		return wrap(e.cur.load(Ptr{y.Obj, ext(y.Path, idxElem(e.cur, idx))}))
	}
	sfail("index of %T", v)
	return nil
}

func (e *Env) binary(n *ast.BinaryExpr) interface{} {
	switch n.Op {
	case token.LAND:
		return BAnd(e.Bool(n.X), e.Bool(n.Y))
	case token.LOR:
		return BOr(e.Bool(n.X), e.Bool(n.Y))
	}
	a, b := untyped(e.Eval(n.X)), untyped(e.Eval(n.Y))
	if n.Op == token.EQL || n.Op == token.NEQ {
		r := e.eq(a, b)
		if n.Op == token.NEQ {
			return BNot(r)
		}
		return r
	}
	a, b = e.scalar(a), e.scalar(b)
	if la, ok := a.(numLit); ok {
		if lb, ok := b.(numLit); ok {
			z := new(big.Int)
			switch n.Op {
			case token.ADD:
				return numLit{z.Add(la.v, lb.v)}
			case token.SUB:
				return numLit{z.Sub(la.v, lb.v)}
			case token.MUL:
				return numLit{z.Mul(la.v, lb.v)}
			case token.QUO:
				return numLit{z.Div(la.v, lb.v)}
			case token.REM:
				return numLit{z.Mod(la.v, lb.v)}
			case token.SHL:
				return numLit{z.Lsh(la.v, uint(lb.v.Int64()))}
			}
		}
	}
	sort := SInt
	for _, v := range []interface{}{a, b} {
		if t, ok := v.(*Term); ok {
			if t.S == SFld && sort == SInt {
				sort = SFld
			}
			if t.S == SPt {
				sort = SPt
			}
		}
	}
	switch sort {
	case SInt:
		x, y := e.toInt(a), e.toInt(b)
		switch n.Op {
		case token.ADD:
			return IAdd(x, y)
		case token.SUB:
			return ISub(x, y)
		case token.MUL:
			return IMul(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.LSS:
			return Lt(x, y)
		case token.GEQ:
			return Le(y, x)
		case token.GTR:
			return Lt(y, x)
		case token.QUO:
			if k, ok := b.(numLit); ok {
				return IDivC(x, k.v)
			}
			if y.IsC() {
				return IDivC(x, y.K)
			}
		case token.REM:
			if y.IsC() {
				return IModC(x, y.K)
			}
		}
	case SFld:
		x, y := e.strictFld(a), e.strictFld(b)
		switch n.Op {
		case token.ADD:
			return FAdd(x, y)
		case token.SUB:
			return FSub(x, y)
		case token.MUL:
			return FMul(x, y)
		case token.QUO:
			return FDiv(x, y)
		}
	case SPt:
		switch n.Op {
		case token.ADD:
			return PAdd(a.(*Term), b.(*Term))
		case token.SUB:
			return PAdd(a.(*Term), PMul(FCI(-1), b.(*Term)))
		case token.MUL:
			return PMul(e.strictFld(a), b.(*Term))
		}
	}
	sfail("operator %s", n.Op)
	return nil
}

func (e *Env) strictFld(v interface{}) *Term {
	if t, ok := v.(*Term); ok && t.S == SInt {
		sfail("integer used where a field element is expected (write F(..))")
	}
	return e.toFld(v)
}

func (e *Env) eq(a, b interface{}) *Term {
	a, b = untyped(a), untyped(b)
	if la, ok := a.(list); ok {
		lb := e.toList(b)
		if len(la) != len(lb) {
			return FalseT
		}
		r := TrueT
		for i := range la {
			r = BAnd(r, e.eq(la[i], lb[i]))
		}
		return r
	}
	if _, ok := b.(list); ok {
		return e.eq(b, a)
	}
	if f, ok := b.(Iface); ok && f.T == nil {
		a, b = b, a
	}
	if f, ok := a.(Iface); ok && f.T == nil { // nil comparison
		switch y := b.(type) {
		case Iface:
			return BC(y.T == nil)
		case Ptr:
			return BC(y.Obj == 0)
		case Slice:
			return BC(y.Obj == 0)
		case SymPtr:
			return FalseT
		}
		sfail("nil comparison with %T", b)
	}
	if s, ok := a.(Str); ok {
		return e.ex.valEq(e.cur, s, b)
	}
	a, b = e.scalar(a), e.scalar(b)
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	switch {
	case ok1 && ok2:
		if ta.S == tb.S {
			return Eq(ta, tb)
		}
		if ta.S == SBool || tb.S == SBool {
			return Eq(e.toInt(ta), e.toInt(tb))
		}
		sfail("== between %s and %s", ta.S, tb.S)
	case ok1:
		a, b = b, a
		ta, tb = tb, ta
		fallthrough
	case ok2:
		l, ok := a.(numLit)
		if !ok {
			break
		}
		if tb.S == SFld {
			return Eq(FC(l.v), tb)
		}
		return Eq(ICB(l.v), e.toInt(tb))
	default:
		la, o1 := a.(numLit)
		lb, o2 := b.(numLit)
		if o1 && o2 {
			return BC(la.v.Cmp(lb.v) == 0)
		}
		if x, ok := a.(Val); ok {
			return e.ex.valEq(e.cur, x, b)
		}
	}
	sfail("== between %T and %T", a, b)
	return nil
}

type specFn func(e *Env, as []ast.Expr) interface{}

var specFns map[string]specFn

func (e *Env) callSpec(name string, n *ast.CallExpr) interface{} {
	if m, ok := macros[name]; ok {
		if len(m.params) != len(n.Args) {
			sfail("%s: wrong number of arguments", name)
		}
		e2 := *e
		e2.depth++
		if e2.depth > 50 {
			sfail("macro recursion")
		}
		e2.vars = map[string]interface{}{}
		for a, b := range e.vars {
			e2.vars[a] = b
		}
		for i, p := range m.params {
			e2.vars[p] = e.Eval(n.Args[i])
		}
		return e2.Eval(m.e)
	}
	f, ok := specFns[name]
	if !ok {
		sfail("unknown function %s", name)
	}
	return f(e, n.Args)
}

func init() {
	boundIdx := 0
	specFns = map[string]specFn{
		"dec": func(e *Env, a []ast.Expr) interface{} { // value of a decimal string constant
			s, _ := untyped(e.Eval(a[0])).(Str).Const()
			n, ok := new(big.Int).SetString(s, 10)
			if !ok {
				sfail("dec")
			}
			return numLit{n}
		},
		"decstr": func(e *Env, a []ast.Expr) interface{} {
			return Str{[]StrPart{{Dec: e.Int(a[0])}}}
		},
		"hexval": func(e *Env, a []ast.Expr) interface{} { // value of the hexadecimal digits of a string (after 0x)
			s := untyped(e.Eval(a[0])).(Str)
			if k := len(s.P) - 1; k >= 0 && s.P[k].Any != "" {
				_, nat := Str{s.P[k:]}.hexText()
				return nat
			}
			return hexPart(s, 0)
		},
		"hexok": func(e *Env, a []ast.Expr) interface{} { // the text (after 0x) is an even number of hexadecimal digits
			s := untyped(e.Eval(a[0])).(Str)
			if k := len(s.P) - 1; k >= 0 && s.P[k].Any != "" {
				ok, _ := Str{s.P[k:]}.hexText()
				return ok
			}
			hexPart(s, 0)
			return TrueT
		},
		"g1x": func(e *Env, a []ast.Expr) interface{} { return hexPart(untyped(e.Eval(a[0])).(Str), 0) },
		"g1y": func(e *Env, a []ast.Expr) interface{} { return hexPart(untyped(e.Eval(a[0])).(Str), 1) },
		"F":   func(e *Env, a []ast.Expr) interface{} { return e.Fld(a[0]) },
		"I":   func(e *Env, a []ast.Expr) interface{} { return FInt(e.Fld(a[0])) },
		"Z":   func(e *Env, a []ast.Expr) interface{} { return e.Int(a[0]) },
		"inv": func(e *Env, a []ast.Expr) interface{} { return FInv(e.Fld(a[0])) },
		"pow": func(e *Env, a []ast.Expr) interface{} { return FPow(e.Fld(a[0]), e.Int(a[1])) },
		"pt": func(e *Env, a []ast.Expr) interface{} {
			x, y := e.Int(a[0]), e.Int(a[1])
			return e.ex.pointOf(e.cur, x, y)
		},
		"base": func(e *Env, a []ast.Expr) interface{} { return PBase(e.Int(a[0]), e.Int(a[1])) },
		// the coefficient of a fixed point in a combination of points
		"gcoef": func(e *Env, a []ast.Expr) interface{} {
			c := e.cur.ctx
			b := c.P(e.Pt(a[1]))
			if len(b.m) != 1 {
				sfail("gcoef: not a single point")
			}
			for k, u := range b.m {
				v, ok := u.isConst()
				if !ok {
					sfail("gcoef: not a single point")
				}
				q := c.P(e.Pt(a[0])).m[k]
				if q == nil {
					return FCI(0)
				}
				return fTerm(polyScale(modR, q, new(big.Int).ModInverse(v, modR)))
			}
			return nil
		},
		"X":    func(e *Env, a []ast.Expr) interface{} { return XI(e.Pt(a[0])) },
		"Y":    func(e *Env, a []ast.Expr) interface{} { return YI(e.Pt(a[0])) },
		"smul": func(e *Env, a []ast.Expr) interface{} { return PMul(e.Fld(a[0]), e.Pt(a[1])) },
		"modp": func(e *Env, a []ast.Expr) interface{} { return IModC(e.Int(a[0]), modP) },
		"modr": func(e *Env, a []ast.Expr) interface{} { return IModC(e.Int(a[0]), modR) },
		"bytei": func(e *Env, a []ast.Expr) interface{} { // big-endian byte i of the 32-byte encoding
			return ByteAt(e.cur.ctx.reint(e.Int(a[0])), e.conc(a[1]), 32)
		},
		"oncurve": func(e *Env, a []ast.Expr) interface{} {
			return onCurveT(e.cur.ctx.reint(e.Int(a[0])), e.cur.ctx.reint(e.Int(a[1])))
		},
		"old": func(e *Env, a []ast.Expr) interface{} {
			n := *e
			n.cur = e.pre
			v := n.Eval(a[0])
			return n.scalarDeep(v)
		},
		"implies": func(e *Env, a []ast.Expr) interface{} {
			p := e.Bool(a[0])
			if p == FalseT {
				return TrueT
			}
			return BImp(p, e.Bool(a[1]))
		},
		"ite": func(e *Env, a []ast.Expr) interface{} {
			c := e.Bool(a[0])
			x, y := e.scalar(e.Eval(a[1])), e.scalar(e.Eval(a[2]))
			if tx, ok := x.(*Term); ok {
				if tx.S == SFld {
					return ite(SFld, c, tx, e.toFld(y))
				}
				if tx.S == SPt {
					return ite(SPt, c, tx, y.(*Term))
				}
			}
			return IIte(c, e.toInt(x), e.toInt(y))
		},
		"len": func(e *Env, a []ast.Expr) interface{} {
			switch v := untyped(e.Eval(a[0])).(type) {
			case Slice:
				return v.Len
			case list:
				return IC(int64(len(v)))
			case Arr:
				return IC(int64(len(v.E)))
			}
			sfail("len")
			return nil
		},
		"forall": func(e *Env, a []ast.Expr) interface{} {
			id := a[0].(*ast.Ident).Name
			lo, hi := e.Int(a[1]), e.Int(a[2])
			l, ok1 := e.cur.constInt(lo)
			h, ok2 := e.cur.constInt(hi)
			if ok1 && ok2 && h-l <= 4096 {
				r := []*Term{}
				for i := l; i < h; i++ {
					r = append(r, e.with(id, IC(i)).Bool(a[3]))
				}
				return BAnd(r...)
			}
			boundIdx++
			v := IVar(fmt.Sprintf("all_%d", boundIdx), nil, nil)
			return BNot(Exists(v, lo, hi, BNot(e.with(id, v).Bool(a[3]))))
		},
		"exists": func(e *Env, a []ast.Expr) interface{} {
			id := a[0].(*ast.Ident).Name
			lo, hi := e.Int(a[1]), e.Int(a[2])
			l, ok1 := e.cur.constInt(lo)
			h, ok2 := e.cur.constInt(hi)
			if ok1 && ok2 && h-l <= 4096 {
				r := []*Term{}
				for i := l; i < h; i++ {
					r = append(r, e.with(id, IC(i)).Bool(a[3]))
				}
				return BOr(r...)
			}
			boundIdx++
			v := IVar(fmt.Sprintf("ex_%d", boundIdx), nil, nil)
			return Exists(v, lo, hi, e.with(id, v).Bool(a[3]))
		},
		// pick(k, e0, e1, ...) is e_k
		"pick": func(e *Env, a []ast.Expr) interface{} {
			k := e.conc(a[0])
			if k < 0 || k+1 >= len(a) {
				sfail("pick index")
			}
			return e.Eval(a[k+1])
		},
		// comprehension: each(i, lo, hi, expr) is a list
		"each": func(e *Env, a []ast.Expr) interface{} {
			id := a[0].(*ast.Ident).Name
			var r list
			for i := e.conc(a[1]); i < e.conc(a[2]); i++ {
				r = append(r, e.with(id, IC(int64(i))).scalarDeep(e.with(id, IC(int64(i))).Eval(a[3])))
			}
			return r
		},
		"cat": func(e *Env, a []ast.Expr) interface{} {
			var r list
			for _, x := range a {
				r = append(r, e.List(x)...)
			}
			return r
		},
		"flat": func(e *Env, a []ast.Expr) interface{} {
			var r list
			for _, x := range e.List(a[0]) {
				r = append(r, e.toList(x)...)
			}
			return r
		},
		"lst": func(e *Env, a []ast.Expr) interface{} {
			var r list
			for _, x := range a {
				r = append(r, e.Eval(x))
			}
			return r
		},
		"be32": func(e *Env, a []ast.Expr) interface{} {
			t := e.cur.ctx.reint(e.Int(a[0]))
			var r list
			for i := 0; i < 32; i++ {
				r = append(r, ByteAt(t, i, 32))
			}
			return r
		},
		"be": func(e *Env, a []ast.Expr) interface{} { // integer of a big-endian byte list
			return e.cur.ctx.reint(beInt(e.ints(untyped(e.Eval(a[0])))))
		},
		"sha256": func(e *Env, a []ast.Expr) interface{} {
			return hashTerm("sha256", e.ints(untyped(e.Eval(a[0]))))
		},
		"keccak256": func(e *Env, a []ast.Expr) interface{} {
			return hashTerm("keccak256", e.ints(untyped(e.Eval(a[0]))))
		},
		"pred": func(e *Env, a []ast.Expr) interface{} {
			s, _ := e.Eval(a[0]).(Str).Const()
			var ts []*Term
			for _, x := range a[1:] {
				ts = append(ts, e.Int(x))
			}
			return Pred(s, ts...)
		},
		"registered": func(e *Env, a []ast.Expr) interface{} {
			s, _ := e.Eval(a[0]).(Str).Const()
			return BC(e.ex.registered[s])
		},
		"isbig": func(e *Env, a []ast.Expr) interface{} {
			v := untyped(e.Eval(a[0]))
			if f, ok := v.(Iface); ok {
				if f.T != nil && types.Identical(f.T, e.ex.bigPtrType()) {
					return TrueT
				}
			}
			return FalseT
		},
		"recfold": func(e *Env, a []ast.Expr) interface{} {
			// recfold(acc, i, step, init, n): value after n steps of acc := step(acc,i)
			acc, i := a[0].(*ast.Ident).Name, a[1].(*ast.Ident).Name
			step := e.with(acc, FVar("rec_acc")).with(i, RecIdx).Fld(a[2])
			init, n := e.Fld(a[3]), e.Int(a[4])
			if k, ok := e.cur.constInt(n); ok && k >= 0 && k < 5000 {
				v := init
				for j := int64(0); j < k; j++ {
					v = e.with(acc, v).with(i, IC(j)).Fld(a[2])
				}
				return v
			}
			return Rec(step, init, n)
		},
		// before(Fn, e), after(Fn, e): e over Fn's parameters, in the state
		// before / after the call of Fn
		"before": func(e *Env, a []ast.Expr) interface{} { return e.atCall(a, false) },
		"after":  func(e *Env, a []ast.Expr) interface{} { return e.atCall(a, true) },
		// horner(z, l): ((l0*z + l1)*z + ...) for field elements or points
		"horner": func(e *Env, a []ast.Expr) interface{} {
			z := e.Fld(a[0])
			var acc *Term
			for _, x := range e.List(a[1]) {
				if t, ok := untyped(x).(*Term); ok && t.S == SPt {
					if acc == nil {
						acc = t
					} else {
						acc = PAdd(PMul(z, acc), t)
					}
					continue
				}
				if acc == nil {
					acc = e.toFld(x)
				} else {
					acc = FAdd(FMul(acc, z), e.toFld(x))
				}
			}
			return acc
		},
		// pairarg(x0, x1, y0, y1): the G1 point paired with that G2 point in the
		// one pairing equation that holds
		"pairarg": func(e *Env, a []ast.Expr) interface{} {
			var p *Term
			for _, f := range e.cur.facts {
				if f.Op == "uf" && strings.HasPrefix(f.Name, "pairing") {
					if p != nil && p != f {
						unsup("several pairing equations")
					}
					p = f
				}
			}
			if p == nil {
				sfail("no pairing equation is enforced")
			}
			var r *Term
			for i := 0; i+6 <= len(p.Args); i += 6 {
				ok := true
				for j := 0; j < 4; j++ {
					if e.cur.ctx.Decide(Eq(p.Args[i+2+j], e.Int(a[j]))) != 1 {
						ok = false
					}
				}
				if ok {
					if r != nil {
						sfail("the G2 point occurs twice in the pairing equation")
					}
					r = e.ex.pointOf(e.cur, p.Args[i], p.Args[i+1])
				}
			}
			if r == nil {
				sfail("the G2 point does not occur in the pairing equation")
			}
			return r
		},
		"pairsize": func(e *Env, a []ast.Expr) interface{} {
			n := 0
			for _, f := range e.cur.facts {
				if f.Op == "uf" && strings.HasPrefix(f.Name, "pairing") {
					n += len(f.Args) / 6
				}
			}
			return numLit{big.NewInt(int64(n))}
		},
		"hasEvent": func(e *Env, a []ast.Expr) interface{} {
			s, _ := e.Eval(a[0]).(Str).Const()
			for _, ev := range e.cur.events {
				if ev.Kind == s {
					return TrueT
				}
			}
			return FalseT
		},
		// pairing(g1s, g2s): the product of the pairings is one
		"pairing": func(e *Env, a []ast.Expr) interface{} {
			var ps, qs []Val
			for _, x := range e.List(a[0]) {
				ps = append(ps, untyped(x))
			}
			for _, x := range e.List(a[1]) {
				qs = append(qs, untyped(x))
			}
			if len(ps) != len(qs) {
				return FalseT
			}
			return pairingPred(e.ex, e.cur, ps, qs)
		},
		"sumsmul": func(e *Env, a []ast.Expr) interface{} {
			// sumsmul(i, n, x, y, k)
			id := a[0].(*ast.Ident).Name
			n := e.Int(a[1])
			if k, ok := e.cur.constInt(n); ok {
				var ps []*Term
				for j := int64(0); j < k; j++ {
					f := e.with(id, IC(j))
					ps = append(ps, PMul(f.Fld(a[4]), e.ex.pointOf(e.cur, f.Int(a[2]), f.Int(a[3]))))
				}
				if len(ps) == 0 {
					return PInf
				}
				return PAdd(ps...)
			}
			f := e.with(id, IVar("sum_i", nil, nil))
			return UF(SPt, "sum_smul", n, f.Int(a[2]), f.Int(a[3]), f.Int(a[4]))
		},
	}
}

// scalarDeep snapshots a value read in the current state so that it can be
// used after the environment switches state.
// atCall evaluates an expression over the parameters of a function around its
// (only) call on this path.
func (e *Env) atCall(a []ast.Expr, post bool) interface{} {
	id, ok := a[0].(*ast.Ident)
	if !ok {
		sfail("before/after: function name expected")
	}
	var ev *Event
	for i := range e.cur.events {
		if e.cur.events[i].Kind == "call:"+id.Name {
			if ev != nil {
				unsup("%s is called more than once", id.Name)
			}
			ev = &e.cur.events[i]
		}
	}
	if ev == nil {
		unsup("%s is not called", id.Name)
	}
	c := contracts[id.Name]
	if c == nil || len(c.Params) != len(ev.Vals) {
		unsup("no contract that names the parameters of %s", id.Name)
	}
	n := *e
	n.vars = map[string]interface{}{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for i, p := range c.Params {
		n.vars[p] = mkTyped(ev.Vals[i], e.ex.fnParam(id.Name, i))
	}
	st := ev.Pre
	if post {
		st = ev.Post
	}
	st = st.clone()
	st.ctx = e.cur.ctx
	n.cur, n.pre, n.post = st, ev.Pre, ev.Post
	return n.scalarDeep(n.Eval(a[1]))
}

func (ex *Exec) fnParam(name string, i int) types.Type {
	if m, ok := ex.pkg.Members[name].(*ssa.Function); ok && i < len(m.Params) {
		return m.Params[i].Type()
	}
	unsup("no function %s", name)
	return nil
}

func (e *Env) scalarDeep(v interface{}) interface{} {
	v = untypedKeep(v)
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return x
		}
		if _, ok := x.V.(ErrV); ok {
			return x
		}
		t, why := e.ex.varTerm(e.cur, x)
		if why == "" {
			return t
		}
		return x
	case Ptr:
		if x.Obj != 0 {
			if t, ok := e.cur.load(x).(*Term); ok {
				return t
			}
		}
		return x
	case typed:
		switch y := x.v.(type) {
		case Slice:
			if _, ok := e.cur.constInt(y.Len); ok && y.Obj != 0 {
				var r list
				for _, z := range e.ex.elems(e.cur, y) {
					r = append(r, e.scalarDeep(mkTyped(z, elemType(x.t))))
				}
				return r
			}
		case Arr:
			var r list
			for _, z := range y.E {
				r = append(r, e.scalarDeep(mkTyped(z, elemType(x.t))))
			}
			return r
		}
		return x
	}
	return v
}
func untypedKeep(v interface{}) interface{} { return v }

// hexPart is the value of the k-th symbolic hexadecimal run of a string.
func hexPart(s Str, k int) *Term {
	for _, p := range s.P {
		if p.Hex != nil {
			if k == 0 {
				return p.Hex
			}
			k--
		}
	}
	sfail("no such digits")
	return nil
}
