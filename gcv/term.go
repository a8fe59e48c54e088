package main

// Hash-consed terms of the assertion logic.
//
// Sorts: Int (mathematical integers), Fld (the scalar field Z_r), Pt (the
// group of BN254 G1 points, treated as a free Z_r-module over its base
// points), Bool and Opq (uninterpreted).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SFld
	SPt
	SBool
	SOpq
)

func (s Sort) String() string { return [...]string{"Int", "Fld", "Pt", "Bool", "Opq"}[s] }

type Term struct {
	ID   int
	Op   string
	S    Sort
	Args []*Term
	K    *big.Int // constants; also lo/len/modulus payloads
	N, M int      // small payloads (bits: lo,len)
	Name string
	lo   *big.Int // inclusive bounds for Int terms (nil = unbounded)
	hi   *big.Int
	nv   int // ID of the newest variable in the term
}

var (
	modR, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	modP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
	big0    = big.NewInt(0)
	big1    = big.NewInt(1)
	rMinus1 = new(big.Int).Sub(modR, big1)
	pMinus1 = new(big.Int).Sub(modP, big1)
)

var termTab = map[string]*Term{}
var termSeq int

func mk(op string, s Sort, name string, k *big.Int, n, m int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteByte('0' + byte(s))
	sb.WriteString(name)
	sb.WriteByte('|')
	if k != nil {
		sb.WriteString(k.Text(62))
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(n))
	sb.WriteByte(',')
	sb.WriteString(strconv.Itoa(m))
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{ID: termSeq, Op: op, S: s, Args: args, K: k, N: n, M: m, Name: name}
	termTab[key] = t
	if op == "var" {
		t.nv = t.ID
	}
	for _, a := range args {
		if a.nv > t.nv {
			t.nv = a.nv
		}
	}
	if s == SInt {
		t.lo, t.hi = boundsOf(t)
	}
	return t
}

func boundsOf(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "const":
		return t.K, t.K
	case "fint":
		return big0, rMinus1
	case "xint", "yint":
		return big0, pMinus1
	case "modc":
		return big0, new(big.Int).Sub(t.K, big1)
	case "divc":
		if l, h := t.Args[0].lo, t.Args[0].hi; l != nil && h != nil {
			return new(big.Int).Div(l, t.K), new(big.Int).Div(h, t.K)
		}
	case "bits":
		return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(t.M)), big1)
	case "ite":
		a, b := t.Args[1], t.Args[2]
		if a.lo != nil && b.lo != nil {
			lo = a.lo
			if b.lo.Cmp(lo) < 0 {
				lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			hi = a.hi
			if b.hi.Cmp(hi) > 0 {
				hi = b.hi
			}
		}
		return
	case "add":
		lo, hi = big0, big0
		for _, a := range t.Args {
			if lo != nil {
				if a.lo != nil {
					lo = new(big.Int).Add(lo, a.lo)
				} else {
					lo = nil
				}
			}
			if hi != nil {
				if a.hi != nil {
					hi = new(big.Int).Add(hi, a.hi)
				} else {
					hi = nil
				}
			}
		}
		return
	case "mul":
		a, b := t.Args[0], t.Args[1]
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			var vs []*big.Int
			for _, x := range []*big.Int{a.lo, a.hi} {
				for _, y := range []*big.Int{b.lo, b.hi} {
					vs = append(vs, new(big.Int).Mul(x, y))
				}
			}
			lo, hi = vs[0], vs[0]
			for _, v := range vs {
				if v.Cmp(lo) < 0 {
					lo = v
				}
				if v.Cmp(hi) > 0 {
					hi = v
				}
			}
			return
		}
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			return new(big.Int).Mul(a.lo, b.lo), nil
		}
	case "var", "uf":
		return t.K2()
	}
	return nil, nil
}

// bounds of variables / uninterpreted integer functions are registered by name
var varBounds = map[string][2]*big.Int{}

func (t *Term) K2() (*big.Int, *big.Int) {
	if b, ok := varBounds[t.Op+":"+t.Name]; ok {
		return b[0], b[1]
	}
	return nil, nil
}

// ---------- constructors ----------

func IC(v int64) *Term     { return ICB(big.NewInt(v)) }
func ICB(v *big.Int) *Term { return mk("const", SInt, "", new(big.Int).Set(v), 0, 0) }
func ICS(s string) *Term {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad int const " + s)
	}
	return ICB(v)
}

// boundName registers bounds for a symbol; a name already in use with other
// bounds denotes another symbol.
func boundName(pre, name string, lo, hi *big.Int) string {
	same := func(a, b *big.Int) bool { return a == nil && b == nil || a != nil && b != nil && a.Cmp(b) == 0 }
	for {
		b, ok := varBounds[pre+name]
		if !ok {
			varBounds[pre+name] = [2]*big.Int{lo, hi}
			return name
		}
		if same(b[0], lo) && same(b[1], hi) {
			return name
		}
		name += "'"
	}
}
func IVar(name string, lo, hi *big.Int) *Term {
	name = boundName("var:", name, lo, hi)
	return mk("var", SInt, name, nil, 0, 0)
}
func (t *Term) IsC() bool { return t.Op == "const" }

func IAdd(as ...*Term) *Term {
	c := new(big.Int)
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "add" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.IsC() {
			c.Add(c, t.K)
			return
		}
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 0 {
		return ICB(c)
	}
	if c.Sign() != 0 {
		out = append(out, ICB(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("add", SInt, "", nil, 0, 0, out...)
}
func IMul(a, b *Term) *Term {
	if a.IsC() && b.IsC() {
		return ICB(new(big.Int).Mul(a.K, b.K))
	}
	if b.IsC() {
		a, b = b, a
	}
	if a.IsC() {
		if a.K.Sign() == 0 {
			return a
		}
		if a.K.Cmp(big1) == 0 {
			return b
		}
	}
	return mk("mul", SInt, "", nil, 0, 0, a, b)
}
func INeg(a *Term) *Term    { return IMul(IC(-1), a) }
func ISub(a, b *Term) *Term { return IAdd(a, INeg(b)) }

func within(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

// IModC is Euclidean t mod m (m>0 constant).
func IModC(t *Term, m *big.Int) *Term {
	if t.IsC() {
		return ICB(new(big.Int).Mod(t.K, m))
	}
	if within(t, big0, new(big.Int).Sub(m, big1)) {
		return t
	}
	if m.Cmp(modR) == 0 {
		return FInt(FOf(t))
	}
	return mk("modc", SInt, "", m, 0, 0, t)
}
func IDivC(t *Term, m *big.Int) *Term {
	if t.IsC() {
		return ICB(new(big.Int).Div(t.K, m))
	}
	if within(t, big0, new(big.Int).Sub(m, big1)) {
		return IC(0)
	}
	return mk("divc", SInt, "", m, 0, 0, t)
}
func bitLenBound(t *Term) int {
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		return t.hi.BitLen()
	}
	return -1
}

// Bits is floor(t/2^lo) mod 2^n for t>=0.
func Bits(t *Term, lo, n int) *Term {
	if t.IsC() && t.K.Sign() >= 0 {
		v := new(big.Int).Rsh(t.K, uint(lo))
		v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(n)), big1))
		return ICB(v)
	}
	if t.Op == "bits" {
		if lo >= t.M {
			return IC(0)
		}
		if n > t.M-lo {
			n = t.M - lo
		}
		return Bits(t.Args[0], t.N+lo, n)
	}
	if bl := bitLenBound(t); bl >= 0 {
		if lo >= bl {
			return IC(0)
		}
		if n > bl-lo {
			n = bl - lo
		}
		if lo == 0 && n >= bl {
			return t
		}
	}
	return mk("bits", SInt, "", nil, lo, n, t)
}

// ByteAt is byte i (big endian) of the n-byte encoding of t.
func ByteAt(t *Term, i, n int) *Term { return Bits(t, 8*(n-1-i), 8) }

func IIte(c, a, b *Term) *Term { return ite(SInt, c, a, b) }
func ite(s Sort, c, a, b *Term) *Term {
	if c == TrueT {
		return a
	}
	if c == FalseT {
		return b
	}
	if a == b {
		return a
	}
	return mk("ite", s, "", nil, 0, 0, c, a, b)
}

// UF builds an uninterpreted function application of sort s.
func UF(s Sort, name string, args ...*Term) *Term { return mk("uf", s, name, nil, 0, 0, args...) }
func UFInt(name string, lo, hi *big.Int, args ...*Term) *Term {
	name = boundName("uf:", name, lo, hi)
	return mk("uf", SInt, name, nil, 0, 0, args...)
}

// field
func FC(v *big.Int) *Term { return mk("const", SFld, "", new(big.Int).Mod(v, modR), 0, 0) }
func FCI(v int64) *Term   { return FC(big.NewInt(v)) }
func FVar(n string) *Term { return mk("var", SFld, n, nil, 0, 0) }
func FInt(f *Term) *Term {
	if f.S != SFld {
		panic("FInt of " + f.S.String())
	}
	if f.IsC() {
		return ICB(f.K)
	}
	if f.Op == "fof" && within(f.Args[0], big0, rMinus1) {
		return f.Args[0]
	}
	return mk("fint", SInt, "", nil, 0, 0, f)
}
func FOf(i *Term) *Term {
	if i.S == SFld {
		return i
	}
	if i.S != SInt {
		panic("FOf of " + i.S.String())
	}
	switch i.Op {
	case "const":
		return FC(i.K)
	case "fint":
		return i.Args[0]
	case "add":
		var as []*Term
		for _, a := range i.Args {
			as = append(as, FOf(a))
		}
		return FAdd(as...)
	case "mul":
		return FMul(FOf(i.Args[0]), FOf(i.Args[1]))
	case "ite":
		return ite(SFld, i.Args[0], FOf(i.Args[1]), FOf(i.Args[2]))
	}
	return mk("fof", SFld, "", nil, 0, 0, i)
}
func FAdd(as ...*Term) *Term {
	c := new(big.Int)
	var out []*Term
	for _, a := range as {
		if a.IsC() {
			c.Add(c, a.K)
			continue
		}
		out = append(out, a)
	}
	c.Mod(c, modR)
	if len(out) == 0 {
		return FC(c)
	}
	if c.Sign() != 0 {
		out = append(out, FC(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("add", SFld, "", nil, 0, 0, out...)
}
func FMul(as ...*Term) *Term {
	c := big.NewInt(1)
	var out []*Term
	for _, a := range as {
		if a.IsC() {
			c = new(big.Int).Mod(new(big.Int).Mul(c, a.K), modR)
			continue
		}
		out = append(out, a)
	}
	if c.Sign() == 0 || len(out) == 0 {
		return FC(c)
	}
	if c.Cmp(big1) != 0 {
		out = append(out, FC(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("mul", SFld, "", nil, 0, 0, out...)
}
func FNeg(a *Term) *Term    { return FMul(FC(big.NewInt(-1)), a) }
func FSub(a, b *Term) *Term { return FAdd(a, FNeg(b)) }
func FInv(a *Term) *Term {
	if a.IsC() && a.K.Sign() != 0 {
		return FC(new(big.Int).ModInverse(a.K, modR))
	}
	return mk("inv", SFld, "", nil, 0, 0, a)
}
func FDiv(a, b *Term) *Term { return FMul(a, FInv(b)) }
func FPow(a, n *Term) *Term {
	if n.IsC() {
		if n.K.Sign() == 0 {
			return FCI(1)
		}
		if n.K.Cmp(big1) == 0 {
			return a
		}
		if a.IsC() {
			return FC(new(big.Int).Exp(a.K, n.K, modR))
		}
	}
	return mk("pow", SFld, "", nil, 0, 0, a, n)
}

// points
func PBase(x, y *Term) *Term {
	if x.Op == "xint" && y.Op == "yint" && x.Args[0] == y.Args[0] {
		return x.Args[0]
	}
	return mk("base", SPt, "", nil, 0, 0, x, y)
}

var PInf = mk("inf", SPt, "", nil, 0, 0)

func PVar(n string) *Term { return mk("var", SPt, n, nil, 0, 0) }
func PAdd(as ...*Term) *Term {
	return mk("add", SPt, "", nil, 0, 0, as...)
}
func PMul(k, p *Term) *Term {
	if k.IsC() && k.K.Cmp(big1) == 0 {
		return p
	}
	return mk("smul", SPt, "", nil, 0, 0, k, p)
}
func XI(p *Term) *Term {
	if p.Op == "base" {
		return p.Args[0]
	}
	return mk("xint", SInt, "", nil, 0, 0, p)
}
func YI(p *Term) *Term {
	if p.Op == "base" {
		return p.Args[1]
	}
	return mk("yint", SInt, "", nil, 0, 0, p)
}

// booleans
var (
	TrueT  = mk("true", SBool, "", nil, 0, 0)
	FalseT = mk("false", SBool, "", nil, 0, 0)
)

func BC(b bool) *Term {
	if b {
		return TrueT
	}
	return FalseT
}
func BNot(a *Term) *Term {
	switch {
	case a == TrueT:
		return FalseT
	case a == FalseT:
		return TrueT
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, "", nil, 0, 0, a)
}
func BAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == FalseT {
			return a
		}
		if a == TrueT || seen[a] {
			continue
		}
		seen[a] = true
		if a.Op == "and" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return TrueT
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", nil, 0, 0, out...)
}
func BOr(as ...*Term) *Term {
	var ns []*Term
	for _, a := range as {
		ns = append(ns, BNot(a))
	}
	return BNot(BAnd(ns...))
}
func BImp(a, b *Term) *Term { return BOr(BNot(a), b) }
func BIff(a, b *Term) *Term { return BAnd(BImp(a, b), BImp(b, a)) }

func Eq(a, b *Term) *Term {
	if a.S != b.S {
		if a.S == SFld && b.S == SInt {
			b = FOf(b)
		} else if a.S == SInt && b.S == SFld {
			a = FOf(a)
		} else {
			panic(fmt.Sprintf("Eq sorts %v %v: %s / %s", a.S, b.S, a, b))
		}
	}
	if a == b {
		return TrueT
	}
	if a.IsC() && b.IsC() {
		return BC(a.K.Cmp(b.K) == 0)
	}
	if a.S == SBool {
		return BIff(a, b)
	}
	if a.S == SInt {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 || b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
			return FalseT
		}
	}
	for i := 0; i < 2; i++ {
		if b.IsC() && constLeaves(a, 6) {
			return eqLeaf(a, b)
		}
		a, b = b, a
	}
	if b.IsC() && b.K.Sign() == 0 {
		if z, ok := foldZero(a); ok {
			return z
		}
	}
	if a.IsC() && a.K.Sign() == 0 {
		if z, ok := foldZero(b); ok {
			return z
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", SBool, "", nil, 0, 0, a, b)
}

// constLeaves: t chooses between constants (at least two) by nested conditions.
func constLeaves(t *Term, depth int) bool {
	if t.Op != "ite" || t.S == SBool || depth == 0 {
		return false
	}
	for _, x := range t.Args[1:] {
		if !x.IsC() && !constLeaves(x, depth-1) {
			return false
		}
	}
	return true
}

func eqLeaf(t, c *Term) *Term {
	if t.IsC() {
		return BC(t.K.Cmp(c.K) == 0)
	}
	x, y := eqLeaf(t.Args[1], c), eqLeaf(t.Args[2], c)
	return BOr(BAnd(t.Args[0], x), BAnd(BNot(t.Args[0]), y))
}

// Le is a<=b over Int.
func Le(a, b *Term) *Term {
	d := ISub(b, a)
	if d.IsC() {
		return BC(d.K.Sign() >= 0)
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return TrueT
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return FalseT
	}
	return mk("le", SBool, "", nil, 0, 0, a, b)
}
func Lt(a, b *Term) *Term { return Le(IAdd(a, IC(1)), b) }

func Pred(name string, args ...*Term) *Term { return mk("uf", SBool, name, nil, 0, 0, args...) }

// printing (depth-limited)
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case "const":
		s := t.K.String()
		if len(s) > 24 {
			s = s[:10] + ".." + s[len(s)-6:]
		}
		return s
	case "var":
		return t.Name
	case "true", "false", "inf":
		return t.Op
	}
	if d <= 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	var as []string
	for i, a := range t.Args {
		if i > 12 {
			as = append(as, "...")
			break
		}
		as = append(as, a.str(d-1))
	}
	switch t.Op {
	case "add":
		return "(" + strings.Join(as, " + ") + ")"
	case "mul":
		return "(" + strings.Join(as, "*") + ")"
	case "eq":
		return "(" + strings.Join(as, " == ") + ")"
	case "le":
		return "(" + strings.Join(as, " <= ") + ")"
	case "and":
		return "(" + strings.Join(as, " && ") + ")"
	case "not":
		return "!" + as[0]
	case "bits":
		return fmt.Sprintf("bits(%s,%d,%d)", as[0], t.N, t.M)
	case "modc", "divc":
		return fmt.Sprintf("%s(%s,%s)", t.Op, as[0], t.K)
	}
	n := t.Op
	if t.Op == "uf" {
		n = t.Name
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// replace variables in a term
func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = substTerm(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "add":
		switch t.S {
		case SInt:
			return IAdd(as...)
		case SFld:
			return FAdd(as...)
		default:
			return PAdd(as...)
		}
	case "mul":
		if t.S == SInt {
			r := as[0]
			for _, a := range as[1:] {
				r = IMul(r, a)
			}
			return r
		}
		return FMul(as...)
	case "fint":
		return FInt(as[0])
	case "fof":
		return FOf(as[0])
	case "inv":
		return FInv(as[0])
	case "pow":
		return FPow(as[0], as[1])
	case "xint":
		return XI(as[0])
	case "yint":
		return YI(as[0])
	case "base":
		return PBase(as[0], as[1])
	case "smul":
		return PMul(as[0], as[1])
	case "modc":
		return IModC(as[0], t.K)
	case "divc":
		return IDivC(as[0], t.K)
	case "bits":
		return Bits(as[0], t.N, t.M)
	case "ite":
		return ite(t.S, as[0], as[1], as[2])
	case "eq":
		return Eq(as[0], as[1])
	case "le":
		return Le(as[0], as[1])
	case "and":
		return BAnd(as...)
	case "not":
		return BNot(as[0])
	}
	return mk(t.Op, t.S, t.Name, t.K, t.N, t.M, as...)
}

func termHas(t, v *Term, memo map[*Term]bool) bool {
	if v.Op == "var" && t.nv < v.ID {
		return false
	}
	if t == v {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if memo[t] {
		return false
	}
	memo[t] = true
	for _, a := range t.Args {
		if termHas(a, v, memo) {
			return true
		}
	}
	return false
}

func collectVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "var" {
		out[t] = true
	}
	for _, a := range t.Args {
		collectVars(a, out, seen)
	}
}

func sortedVars(ts ...*Term) []*Term {
	o, s := map[*Term]bool{}, map[*Term]bool{}
	for _, t := range ts {
		collectVars(t, o, s)
	}
	var r []*Term
	for v := range o {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}
