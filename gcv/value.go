package main

// Symbolic values, heap and path state of the executor.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// PathElem: a struct field / concrete index (Sym==nil) or a symbolic index.
type PathElem struct {
	I   int
	Sym *Term
}

type Ptr struct {
	Obj  int // 0 = nil
	Path []PathElem
}

// SymPtr is a pointer to an (immutable) cell of an input that is addressed by
// a symbolic index; only reads are supported.
type SymPtr struct {
	V Val
}

type Slice struct {
	Obj           int // 0 = nil slice
	Path          []PathElem
	Off, Len, Cap *Term
}

type Struct struct{ F []Val }
type Arr struct{ E []Val }

// GenArr is an array of symbolic length: Gen is the initial content (a value
// with the free index variable Idx), Writes are applied in order.
type GenArr struct {
	Len    *Term
	Idx    *Term
	Gen    Val
	Writes []GWrite
}

// GWrite: for Lo<=i<Hi content is V[K:=i]; a single write has Hi=Lo+1.
type GWrite struct {
	Lo, Hi *Term
	K      *Term // bound variable of V (nil: V does not depend on i)
	V      Val
}

type Iface struct {
	T types.Type // nil = nil interface
	V Val
}

// ErrV is the payload of a symbolic non-nil error.
type ErrV struct {
	Name string
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}

type Tuple []Val

// Opq is an external object; kept immutable, stored in the heap when mutable.
type Opq struct {
	Kind string
	D    map[string]Val
}

type StrPart struct {
	C    string
	Hex  *Term // 64 hex digits of Hex
	NHex int
	Dec  *Term
	Any  string // unknown text, identified by its origin
	Not  string // a prefix an unknown text does not have
}

func (p StrPart) isConst() bool { return p.Hex == nil && p.Dec == nil && p.Any == "" }

// width is the number of bytes of a part, -1 when it is not fixed.
func (p StrPart) width() int {
	switch {
	case p.Hex != nil:
		return p.NHex
	case p.Dec != nil || p.Any != "":
		return -1
	}
	return len(p.C)
}
type Str struct{ P []StrPart }

func strC(s string) Str { return Str{[]StrPart{{C: s}}} }
func (s Str) Const() (string, bool) {
	r := ""
	for _, p := range s.P {
		if !p.isConst() {
			return "", false
		}
		r += p.C
	}
	return r, true
}
func strCat(a, b Str) Str {
	var r []StrPart
	for _, p := range append(append([]StrPart{}, a.P...), b.P...) {
		if p.isConst() {
			if p.C == "" {
				continue
			}
			if n := len(r); n > 0 && r[n-1].isConst() {
				r[n-1].C += p.C
				continue
			}
		}
		r = append(r, p)
	}
	return Str{r}
}

// sub is s[lo:hi] (hi < 0: to the end); ok is false when a bound falls into a
// part of unknown width.
func (s Str) sub(lo, hi int) (Str, bool) {
	var out Str
	off := 0
	for _, p := range s.P {
		w := p.width()
		if hi >= 0 && off >= hi {
			break
		}
		if w < 0 {
			if hi >= 0 || off < lo {
				return Str{}, false
			}
			out = strCat(out, Str{[]StrPart{p}})
			off = 1 << 30
			continue
		}
		a, b := off, off+w
		off = b
		x, y := 0, w
		if lo > a {
			x = lo - a
		}
		if hi >= 0 && hi < b {
			y = hi - a
		}
		if x >= y {
			continue
		}
		if p.Hex != nil {
			if x == 0 && y == w {
				out = strCat(out, Str{[]StrPart{p}})
			} else {
				out = strCat(out, Str{[]StrPart{{Hex: Bits(p.Hex, 4*(w-y), 4*(y-x)), NHex: y - x}}})
			}
			continue
		}
		out = strCat(out, strC(p.C[x:y]))
	}
	return out, lo <= off && hi <= off
}

// byteAt is s[i].
func (s Str) byteAt(i int) *Term {
	c, ok := s.sub(i, i+1)
	if !ok || len(c.P) != 1 {
		return nil
	}
	if c.P[0].isConst() {
		return IC(int64(c.P[0].C[0]))
	}
	if c.P[0].Hex != nil {
		d := c.P[0].Hex
		return IIte(Le(d, IC(9)), IAdd(d, IC(48)), IAdd(d, IC(87)))
	}
	return nil
}

// hexText: for an unknown text, whether it is an even number of hexadecimal
// digits, and the number they denote if so.
func (s Str) hexText() (*Term, *Term) {
	n := s.P[0].Any
	return Eq(IVar("hexok("+n+")", big0, big1), IC(1)), IVar("hexnat("+n+")", big0, nil)
}

// hasPrefix: 1 yes, -1 no, 0 unknown.
func (s Str) hasPrefix(p string) int {
	if len(s.P) > 0 && s.P[0].Any != "" && s.P[0].Not != "" && strings.HasPrefix(p, s.P[0].Not) {
		return -1
	}
	for i := 0; i < len(p); i++ {
		off, w := 0, -1
		for _, q := range s.P {
			w = q.width()
			if w < 0 || i < off+w {
				break
			}
			off += w
			w = -2
		}
		switch {
		case w == -2 || len(s.P) == 0:
			return -1 // shorter than the prefix
		case w == -1:
			return 0
		}
		b := s.byteAt(i)
		switch {
		case b == nil:
			return 0
		case b.IsC():
			if b.K.Int64() != int64(p[i]) {
				return -1
			}
		case !strings.ContainsRune("0123456789abcdef", rune(p[i])):
			return -1
		}
	}
	for i := 0; i < len(p); i++ {
		if b := s.byteAt(i); b == nil || !b.IsC() {
			return 0
		}
	}
	return 1
}

type Obj struct {
	T types.Type
	V Val
	// Entry marks memory reachable from the entry state
	Entry string
}

type State struct {
	heap   map[int]*Obj
	ctx    *Ctx
	facts  []*Term
	keys   map[string]bool
	dead   bool
	events []Event
	trace  []string
	steps  int
	failed string // a step that failed on this path (Fault mode)
}

// Event is a record of an observable interaction (assertions made, hints
// called, pairing checks...), in program order.
type Event struct {
	Kind string
	Args []*Term
	Pos  string
	// a call of a watched function: its arguments and the states around it
	Vals      []Val
	Pre, Post *State
	Obj       []*prov
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, ctx: newCtx(), keys: map[string]bool{}}
}
func (s *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(s.heap)+8), ctx: s.ctx, keys: make(map[string]bool, len(s.keys)), steps: s.steps}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k := range s.keys {
		n.keys[k] = true
	}
	n.failed = s.failed
	n.facts = append([]*Term{}, s.facts...)
	n.events = append([]Event{}, s.events...)
	n.trace = append([]string{}, s.trace...)
	return n
}

var objSeq int
var varSeq = map[string]int{}

var freshSeq int

// freshName: a name for a new variable; names ending in "!" are never reused.
func freshName(p string) string {
	if strings.HasSuffix(p, "!") {
		freshSeq++
		return fmt.Sprintf("%s#%d", p, freshSeq)
	}
	varSeq[p]++
	if varSeq[p] == 1 {
		return p
	}
	return fmt.Sprintf("%s#%d", p, varSeq[p])
}

func (s *State) alloc(t types.Type, v Val) Ptr {
	objSeq++
	s.heap[objSeq] = &Obj{T: t, V: v}
	return Ptr{Obj: objSeq}
}

type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func typeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

// abstractScalar: types whose values are modelled by one Int term.
func abstractScalar(t types.Type) string {
	switch k := typeKey(t); {
	case k == "math/big.Int":
		return "big"
	case strings.HasSuffix(k, "gnark-crypto/ecc/bn254/fp.Element"):
		return "fp"
	case strings.HasSuffix(k, "gnark-crypto/ecc/bn254/fr.Element"):
		return "fr"
	case strings.HasSuffix(k, "gnark/std/math/emulated.Element"):
		return "emul"
	}
	return ""
}

// opaque struct types kept as Opq objects
func opaqueType(t types.Type) string {
	k := typeKey(t)
	switch {
	case strings.HasSuffix(k, "go-ethereum/crypto/bn256/cloudflare.G1"), strings.HasSuffix(k, "go-ethereum/crypto/bn256.G1"):
		return "ethG1"
	case k == "bytes.Buffer":
		return "bytesBuffer"
	case k == "strings.Builder":
		return "bytesBuffer"
	case k == "sync.Mutex", k == "sync.Once":
		return "sync"
	}
	return ""
}

func zeroVal(t types.Type) Val {
	if abstractScalar(t) != "" {
		return IC(0)
	}
	if o := opaqueType(t); o != "" {
		switch o {
		case "ethG1":
			return Opq{"ethG1", map[string]Val{"p": PInf}}
		case "bytesBuffer":
			return Opq{"bytesBuffer", map[string]Val{"b": []Val{}}}
		}
		return Opq{o, nil}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return FalseT
		case u.Info()&types.IsInteger != 0:
			return IC(0)
		case u.Info()&types.IsString != 0:
			return strC("")
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		}
		return Opq{"basic:" + u.String(), nil}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{Off: IC(0), Len: IC(0), Cap: IC(0)}
	case *types.Struct:
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 100000 {
			return Opq{"bigarray", nil}
		}
		a := Arr{make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = zeroVal(u.Elem())
		}
		return a
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return Opq{"typeparam", nil}
		}
		return Iface{}
	case *types.Signature:
		return FuncV{}
	case *types.Map, *types.Chan:
		return Opq{"nilmap", nil}
	}
	unsup("zero value of %s", t)
	return nil
}

func getPath(v Val, path []PathElem, st *State) Val {
	for i, p := range path {
		switch x := v.(type) {
		case Struct:
			v = x.F[p.I]
		case Arr:
			if p.Sym != nil {
				// read at a symbolic index of a concrete array
				c := st.ctx.I(p.Sym)
				if k, ok := c.isConst(); ok {
					v = x.E[k.Int64()]
					continue
				}
				return symRead(x, p.Sym, path[i+1:], st)
			}
			v = x.E[p.I]
		case GenArr:
			idx := p.Sym
			if idx == nil {
				idx = IC(int64(p.I))
			}
			v = x.read(idx, st)
		case nil:
			unsup("read of uninitialised memory")
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func symRead(a Arr, idx *Term, rest []PathElem, st *State) Val {
	var r Val
	for i := len(a.E) - 1; i >= 0; i-- {
		e := getPath(a.E[i], rest, st)
		if r == nil {
			r = e
			continue
		}
		m := iteVal(Eq(idx, IC(int64(i))), e, r)
		if m == nil {
			unsup("symbolic index read of %T", e)
		}
		r = m
	}
	if r == nil {
		unsup("symbolic index read of empty array")
	}
	return r
}

// iteVal merges two scalar values; nil if impossible.
func iteVal(c *Term, a, b Val) Val {
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 && ta.S == tb.S {
		if ta.S == SBool {
			return BAnd(BImp(c, ta), BImp(BNot(c), tb))
		}
		return ite(ta.S, c, ta, tb)
	}
	return nil
}

func (g GenArr) read(idx *Term, st *State) Val {
	for i := len(g.Writes) - 1; i >= 0; i-- {
		w := g.Writes[i]
		in := st.decide(BAnd(Le(w.Lo, idx), Lt(idx, w.Hi)))
		switch in {
		case 1:
			if w.K == nil {
				return w.V
			}
			return substVal(w.V, map[*Term]*Term{w.K: idx})
		case 0:
			unsup("read of symbolic array at index %s, which may or may not be in the part written, [%s, %s)", idx, w.Lo, w.Hi)
		}
	}
	if g.Gen == nil {
		unsup("read of unwritten symbolic array")
	}
	return substVal(g.Gen, map[*Term]*Term{g.Idx: idx})
}

func setPath(v Val, path []PathElem, nv Val, st *State) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case Struct:
		f := append([]Val{}, x.F...)
		f[p.I] = setPath(f[p.I], path[1:], nv, st)
		return Struct{f}
	case Arr:
		if p.Sym != nil {
			if k, ok := st.ctx.I(p.Sym).isConst(); ok {
				p.I = int(k.Int64())
			} else {
				unsup("write at symbolic index of concrete array")
			}
		}
		e := append([]Val{}, x.E...)
		e[p.I] = setPath(e[p.I], path[1:], nv, st)
		return Arr{e}
	case GenArr:
		idx := p.Sym
		if idx == nil {
			idx = IC(int64(p.I))
		}
		if len(path) > 1 {
			nv = setPath(x.read(idx, st), path[1:], nv, st)
		}
		w := append([]GWrite{}, x.Writes...)
		w = append(w, GWrite{Lo: idx, Hi: IAdd(idx, IC(1)), V: nv})
		return GenArr{x.Len, x.Idx, x.Gen, w}
	}
	unsup("write path into %T", v)
	return nil
}

func substVal(v Val, m map[*Term]*Term) Val {
	switch x := v.(type) {
	case *Term:
		return substTerm(x, m, map[*Term]*Term{})
	case Ptr:
		return Ptr{x.Obj, substPath(x.Path, m)}
	case SymPtr:
		return SymPtr{substVal(x.V, m)}
	case Slice:
		r := x
		r.Path = substPath(x.Path, m)
		r.Off = substTerm(x.Off, m, map[*Term]*Term{})
		r.Len = substTerm(x.Len, m, map[*Term]*Term{})
		r.Cap = substTerm(x.Cap, m, map[*Term]*Term{})
		return r
	case Struct:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = substVal(x.F[i], m)
		}
		return Struct{f}
	case Arr:
		f := make([]Val, len(x.E))
		for i := range f {
			f[i] = substVal(x.E[i], m)
		}
		return Arr{f}
	case Iface:
		return Iface{x.T, substVal(x.V, m)}
	}
	return v
}
func substPath(p []PathElem, m map[*Term]*Term) []PathElem {
	ch := false
	r := make([]PathElem, len(p))
	for i, e := range p {
		r[i] = e
		if e.Sym != nil {
			n := substTerm(e.Sym, m, map[*Term]*Term{})
			if n != e.Sym {
				ch = true
				r[i] = PathElem{Sym: n}
				if n.IsC() {
					r[i] = PathElem{I: int(n.K.Int64())}
				}
			}
		}
	}
	if !ch {
		return p
	}
	return r
}

func (s *State) load(p Ptr) Val {
	if p.Obj == 0 {
		unsup("nil load")
	}
	o, ok := s.heap[p.Obj]
	if !ok {
		unsup("dangling object")
	}
	return getPath(o.V, p.Path, s)
}
func (s *State) store(p Ptr, v Val) {
	o, ok := s.heap[p.Obj]
	if !ok {
		unsup("dangling store")
	}
	n := *o
	n.V = setPath(o.V, p.Path, v, s)
	s.heap[p.Obj] = &n
}

func ext(p []PathElem, e ...PathElem) []PathElem {
	return append(append([]PathElem{}, p...), e...)
}

func idxElem(st *State, t *Term) PathElem {
	if t.IsC() {
		return PathElem{I: int(t.K.Int64())}
	}
	if k, ok := st.ctx.I(t).isConst(); ok {
		return PathElem{I: int(k.Int64())}
	}
	return PathElem{Sym: t}
}

// constInt extracts a concrete integer.
func (s *State) constInt(v Val) (int64, bool) {
	t, ok := v.(*Term)
	if !ok {
		return 0, false
	}
	if t.IsC() {
		return t.K.Int64(), t.K.IsInt64()
	}
	if k, ok := s.ctx.I(t).isConst(); ok {
		return k.Int64(), k.IsInt64()
	}
	return 0, false
}

// ---------- facts ----------

// decide uses normalisation, recorded facts and (for linear integer
// comparisons) the SMT back end.
func (s *State) decide(b *Term) int {
	if d := s.ctx.Decide(b); d != 0 {
		return d
	}
	k := s.ctx.BKey(b)
	if s.keys[k] {
		return 1
	}
	if s.keys["!"+k] || strings.HasPrefix(k, "!") && s.keys[k[1:]] {
		return -1
	}
	switch b.Op {
	case "and":
		all := 1
		for _, a := range b.Args {
			d := s.decide(a)
			if d == -1 {
				return -1
			}
			if d == 0 {
				all = 0
			}
		}
		if all == 1 {
			return 1
		}
	case "not":
		if d := s.decide(b.Args[0]); d != 0 {
			return -d
		}
	case "eq":
		if e := s.ctx.eqBit(b.Args[0], b.Args[1]); e != nil {
			return s.decide(e)
		}
	}
	return s.smtDecide(b)
}

// assume adds a fact; returns false when the state becomes infeasible.
func (s *State) assume(b *Term) bool {
	switch s.ctx.Decide(b) {
	case 1:
		return true
	case -1:
		if debugDead {
			fmt.Fprintf(os.Stderr, "refuted: %s\n", b)
			for _, a := range b.Args {
				if a.S == SFld {
					fmt.Fprintf(os.Stderr, "   F %s\n", s.ctx.F(a))
				}
			}
		}
		s.dead = true
		return false
	}
	if b.Op == "and" {
		for _, a := range b.Args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if q, neg := b, false; true {
		if q.Op == "not" {
			q, neg = q.Args[0], true
		}
		if q.Op == "eq" {
			if e := s.ctx.eqBit(q.Args[0], q.Args[1]); e != nil {
				if neg {
					e = BNot(e)
				}
				return s.assume(e)
			}
		}
	}
	k := s.ctx.BKey(b)
	if s.keys["!"+k] || strings.HasPrefix(k, "!") && s.keys[k[1:]] {
		s.dead = true
		return false
	}
	if s.keys[k] {
		return true
	}
	oldCtx := s.ctx
	s.ctx.floor = math.MaxInt
	switch b.Op {
	case "eq":
		s.assumeEq(b.Args[0], b.Args[1])
	case "not":
		a := b.Args[0]
		if a.Op == "eq" && a.Args[0].S == SFld {
			s.ctx = s.ctx.withNonzero(FSub(a.Args[0], a.Args[1]))
		}
		if a.Op == "eq" && a.Args[0].S == SInt && s.ctx.isCanonR(a.Args[0]) && s.ctx.isCanonR(a.Args[1]) {
			s.ctx = s.ctx.withNonzero(FSub(FOf(a.Args[0]), FOf(a.Args[1])))
		}
	case "le":
		s.assumeLe(b)
	case "var":
		s.ctx = s.ctx.withSubst(b, TrueT)
	case "uf":
		if b.Name == "oncurve" {
			s.ctx = s.ctx.withOnc(b)
		}
	}
	s.facts = append(s.facts, b)
	if s.ctx != oldCtx {
		s.rekey(b.Op == "not")
	} else {
		s.keys[k] = true
	}
	return !s.dead
}

func (s *State) rekey(fields bool) {
	// equations that could not be solved before may be solvable now
	for again, n := true, 0; again && n < 8; n++ {
		again = false
		for _, f := range s.facts {
			if f.ID < s.ctx.floor {
				continue
			}
			if f.Op != "eq" || f.Args[0].S != SInt && (!fields || f.Args[0].S != SFld) || s.ctx.Decide(f) != 0 {
				continue
			}
			old := s.ctx
			s.assumeEq(f.Args[0], f.Args[1])
			if s.ctx != old {
				again = true
			}
		}
	}
	if s.ctx.floor == 0 {
		s.keys = map[string]bool{}
	}
	for _, f := range s.facts {
		if f.ID < s.ctx.floor {
			continue
		}
		k := s.ctx.BKey(f)
		if k == "F" {
			if debugDead {
				fmt.Fprintf(os.Stderr, "contradiction: %s\n", f)
			}
			s.dead = true
			return
		}
		s.keys[k] = true
	}
	for k := range s.keys {
		if strings.HasPrefix(k, "!") && s.keys[k[1:]] {
			if debugDead {
				fmt.Fprintf(os.Stderr, "contradictory keys: %s\n", k)
			}
			s.dead = true
		}
	}
}

var debugDead = os.Getenv("GCV_DEAD") != ""

func (s *State) assumeLe(b *Term) {
	a, c := b.Args[0], b.Args[1]
	if rev := Le(c, a); s.ctx.Decide(rev) == 1 || s.keys[s.ctx.BKey(rev)] {
		s.assumeEq(a, c)
		return
	}
	// k - t >= 0 with t >= 0 and k < r: t is a canonical residue
	d := polySub(nil, s.ctx.I(c), s.ctx.I(a))
	var at *Atom
	k := new(big.Int)
	for m, v := range d.m {
		if m == "" {
			k.Set(v)
			continue
		}
		fs := decMono(m)
		if at != nil || len(fs) != 1 || fs[0].exp != 1 || v.Cmp(big.NewInt(-1)) != 0 {
			return
		}
		at = atoms[fs[0].atom]
	}
	if at != nil && at.t.lo != nil && at.t.lo.Sign() >= 0 {
		if k.Cmp(modR) < 0 {
			s.ctx = s.ctx.withInR(at.t)
		}
		if k.Cmp(rMinus1) < 0 || k.Cmp(modR) >= 0 {
			s.ctx = s.ctx.withUb(at.t, k)
		}
	}
}

// assumeEq tries to solve an equation for a variable.
func (s *State) assumeEq(a, b *Term) {
	c := s.ctx
	switch a.S {
	case SInt:
		pa, pb := c.I(a), c.I(b)
		// canonical residues: go through the field
		try := func(x *Poly, yt *Term, y *Poly) bool {
			at, ok := x.isAtom()
			if !ok {
				return false
			}
			switch at.t.Op {
			case "var":
				if polyHasAtom(c, y, at) {
					return false
				}
				s.ctx = c.withSubst(at.t, iTerm(y))
				return true
			case "fint":
				f := at.t.Args[0]
				fp := c.F(f)
				if fa, ok := fp.isAtom(); ok && fa.t.Op == "var" {
					yf := c.F(FOf(iTerm(y)))
					if fHasVar(yf, fa.t) {
						return false
					}
					n := c.withSubst(fa.t, fTerm(yf))
					if !c.isCanonR(yt) {
						if ya, ok := y.isAtom(); ok {
							_ = ya
							n.inR[y.key()] = true
						}
					}
					s.ctx = n
					return true
				}
			}
			return false
		}
		if try(pa, b, pb) || try(pb, a, pa) {
			return
		}
		// a linear occurrence of a variable with coefficient 1 or -1
		d := polySub(nil, pa, pb)
		for _, k := range d.sortedKeys() {
			if len(k) != 12 || d.m[k].CmpAbs(big1) != 0 {
				continue
			}
			f := decMono(k)[0]
			at := atoms[f.atom]
			if f.exp != 1 || at.t.Op != "var" {
				continue
			}
			rest := polySub(nil, d, polyScale(nil, polyAtom(at, 1), d.m[k]))
			if polyHasAtom(c, rest, at) {
				continue
			}
			s.ctx = c.withSubst(at.t, iTerm(polyScale(nil, rest, new(big.Int).Neg(d.m[k]))))
			return
		}
		if c.isCanonR(a) && c.isCanonR(b) {
			s.solveF(FOf(a), FOf(b))
			return
		}
		// one side canonical => the other is in range as well
		if c.isCanonR(a) {
			if _, ok := pb.isAtom(); ok {
				s.ctx = s.ctx.withInR(b)
				s.solveF(FOf(a), FOf(b))
				return
			}
		}
		if c.isCanonR(b) {
			if _, ok := pa.isAtom(); ok {
				s.ctx = s.ctx.withInR(a)
				s.solveF(FOf(a), FOf(b))
			}
		}
	case SFld:
		s.solveF(a, b)
	case SPt, SOpq:
		if a.Op == "var" && c.subst[a] == nil && !termHas(b, a, map[*Term]bool{}) {
			s.ctx = c.withSubst(a, b)
		} else if b.Op == "var" && c.subst[b] == nil && !termHas(a, b, map[*Term]bool{}) {
			s.ctx = c.withSubst(b, a)
		}
	}
}

func polyHasAtom(c *Ctx, p *Poly, a *Atom) bool {
	for k := range p.m {
		for _, f := range decMono(k) {
			if f.atom == a.id || termHas(atoms[f.atom].t, a.t, map[*Term]bool{}) {
				return true
			}
		}
	}
	return false
}
func fHasVar(p *Poly, v *Term) bool {
	memo := map[*Term]bool{}
	for k := range p.m {
		for _, f := range decMono(k) {
			if termHas(atoms[f.atom].t, v, memo) {
				return true
			}
		}
	}
	return false
}

// solveF: the field equation a==b; try to eliminate one variable.
func (s *State) solveF(a, b *Term) {
	c := s.ctx
	d := polySub(modR, c.F(a), c.F(b))
	if d.isZero() {
		return
	}
	if len(d.m) > 5000 {
		return
	}
	// prefer the newest variable
	cand := map[int]bool{}
	for k := range d.m {
		for _, f := range decMono(k) {
			at := atoms[f.atom]
			if (at.t.Op == "var" || at.t.Op == "fof" && at.t.Args[0].Op == "var") && f.exp == 1 {
				cand[f.atom] = true
			}
		}
	}
	var ids []int
	for i := range cand {
		ids = append(ids, i)
	}
	vt := func(id int) *Term {
		if t := atoms[id].t; t.Op == "fof" {
			return t.Args[0]
		}
		return atoms[id].t
	}
	sub := func(n *Ctx, v *Term, e *Term) {
		if v.S == SFld {
			n.setSubst(v, e)
			return
		}
		if a, ok := c.I(v).isAtom(); ok && c.intInR(a) {
			n.setSubst(v, FInt(e))
			return
		}
		n.setFsub(v, e)
	}
	for i := range ids { // newest (highest term id) first
		for j := i + 1; j < len(ids); j++ {
			if vt(ids[j]).ID > vt(ids[i]).ID {
				ids[i], ids[j] = ids[j], ids[i]
			}
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, id := range ids {
			v := vt(id)
			q := &Poly{map[string]*big.Int{}} // coefficient of v
			r := &Poly{map[string]*big.Int{}}
			ok := true
			for k, cf := range d.m {
				fs := decMono(k)
				has := false
				rest := fs[:0:0]
				for _, f := range fs {
					if f.atom == id {
						if f.exp != 1 {
							ok = false
						}
						has = true
					} else {
						if termHas(atoms[f.atom].t, v, map[*Term]bool{}) {
							ok = false
						}
						rest = append(rest, f)
					}
				}
				if has {
					q.addTo(encMono(rest), cf, modR)
				} else {
					r.addTo(k, cf, modR)
				}
			}
			if !ok || q.isZero() {
				continue
			}
			if qc, isC := q.isConst(); isC {
				inv := new(big.Int).ModInverse(qc, modR)
				inv.Neg(inv)
				n := c.derive(v.ID)
				sub(n, v, fTerm(polyScale(modR, r, inv)))
				s.ctx = n
				return
			}
			if pass == 0 {
				continue
			}
			rc, isC := r.isConst()
			if isC && rc.Sign() != 0 || s.ctx.knownNonzero(r) && !r.isZero() {
				// q*v = -r with r != 0: q != 0, v = -r/q
				n := c.withNonzero(fTerm(q))
				n2 := n.derive(v.ID)
				sub(n2, v, FMul(fTerm(polyScale(modR, r, big.NewInt(-1))), FInv(fTerm(q))))
				s.ctx = n2
				return
			}
			if c.knownNonzero(q) {
				n := c.derive(v.ID)
				sub(n, v, FMul(fTerm(polyScale(modR, r, big.NewInt(-1))), FInv(fTerm(q))))
				s.ctx = n
				return
			}
		}
	}
}
