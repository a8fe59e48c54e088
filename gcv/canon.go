package main

// Canonical forms and the ring/module decision procedure.
//
// A Ctx carries the equational knowledge of one path (solved variables, range
// facts, nonzero facts).  Field terms are normalised to canonical polynomials
// over Z_r (integer exponents, negative for inverses), integer terms to
// polynomials over Z, points to linear combinations of base points with
// polynomial coefficients.  Uninterpreted applications become atoms keyed by
// the canonical keys of their arguments, which gives congruence closure.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Poly struct {
	m map[string]*big.Int // monomial key -> coefficient
}

type monoFactor struct {
	atom int
	exp  int64
}

func encMono(fs []monoFactor) string {
	b := make([]byte, 0, len(fs)*12)
	var t [12]byte
	for _, f := range fs {
		binary.BigEndian.PutUint32(t[:4], uint32(f.atom))
		binary.BigEndian.PutUint64(t[4:], uint64(f.exp))
		b = append(b, t[:]...)
	}
	return string(b)
}
func decMono(s string) []monoFactor {
	out := make([]monoFactor, 0, len(s)/12)
	for i := 0; i+12 <= len(s); i += 12 {
		out = append(out, monoFactor{int(binary.BigEndian.Uint32([]byte(s[i : i+4]))), int64(binary.BigEndian.Uint64([]byte(s[i+4 : i+12])))})
	}
	return out
}
func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x, y := decMono(a), decMono(b)
	out := make([]monoFactor, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		if j >= len(y) || i < len(x) && x[i].atom < y[j].atom {
			out = append(out, x[i])
			i++
		} else if i >= len(x) || y[j].atom < x[i].atom {
			out = append(out, y[j])
			j++
		} else {
			if e := x[i].exp + y[j].exp; e != 0 {
				out = append(out, monoFactor{x[i].atom, e})
			}
			i++
			j++
		}
	}
	return encMono(out)
}

type Atom struct {
	id  int
	key string
	t   *Term // representative
	// for inv atoms: the (monic) polynomial inverted
	inv *Poly
}

var atoms []*Atom
var atomByKey = map[string]*Atom{}

func getAtom(key string, t *Term) *Atom {
	if a, ok := atomByKey[key]; ok {
		return a
	}
	a := &Atom{id: len(atoms), key: key, t: t}
	atoms = append(atoms, a)
	atomByKey[key] = a
	return a
}

// mod == nil: integers
func redc(c, mod *big.Int) *big.Int {
	if mod != nil {
		c.Mod(c, mod)
	}
	return c
}
func polyConst(c *big.Int, mod *big.Int) *Poly {
	p := &Poly{map[string]*big.Int{}}
	v := redc(new(big.Int).Set(c), mod)
	if v.Sign() != 0 {
		p.m[""] = v
	}
	return p
}
func polyAtom(a *Atom, e int64) *Poly {
	return &Poly{map[string]*big.Int{encMono([]monoFactor{{a.id, e}}): big.NewInt(1)}}
}
func (p *Poly) addTo(k string, c *big.Int, mod *big.Int) {
	if old, ok := p.m[k]; ok {
		v := redc(new(big.Int).Add(old, c), mod)
		if v.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = v
		}
		return
	}
	v := redc(new(big.Int).Set(c), mod)
	if v.Sign() != 0 {
		p.m[k] = v
	}
}
func polyAdd(mod *big.Int, ps ...*Poly) *Poly {
	if len(ps) == 1 {
		return ps[0]
	}
	r := &Poly{make(map[string]*big.Int)}
	for _, p := range ps {
		for k, c := range p.m {
			r.addTo(k, c, mod)
		}
	}
	return r
}

var polyBudget = 4000000 // monomial products per run before giving up
var polyWork int

type tooBig struct{}

func polyMul(mod *big.Int, a, b *Poly) *Poly {
	r := &Poly{make(map[string]*big.Int, len(a.m)+len(b.m))}
	polyWork += len(a.m) * len(b.m)
	ringOps++
	if len(a.m)*len(b.m) > polyBudget {
		panic(tooBig{})
	}
	t := new(big.Int)
	for ka, ca := range a.m {
		for kb, cb := range b.m {
			t.Mul(ca, cb)
			r.addTo(mulMono(ka, kb), t, mod)
		}
	}
	return r
}
func polyScale(mod *big.Int, a *Poly, c *big.Int) *Poly {
	r := &Poly{make(map[string]*big.Int, len(a.m))}
	for k, v := range a.m {
		r.addTo(k, new(big.Int).Mul(v, c), mod)
	}
	return r
}
func polySub(mod *big.Int, a, b *Poly) *Poly {
	return polyAdd(mod, a, polyScale(mod, b, big.NewInt(-1)))
}
func (p *Poly) isZero() bool { return len(p.m) == 0 }
func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.m) == 0 {
		return new(big.Int), true
	}
	if len(p.m) == 1 {
		if c, ok := p.m[""]; ok {
			return c, true
		}
	}
	return nil, false
}
func (p *Poly) single() (string, *big.Int, bool) {
	if len(p.m) == 1 {
		for k, c := range p.m {
			return k, c, true
		}
	}
	return "", nil, false
}

// isAtom reports whether p is exactly one atom with coefficient 1, exponent 1.
func (p *Poly) isAtom() (*Atom, bool) {
	k, c, ok := p.single()
	if !ok || c.Cmp(big1) != 0 || len(k) != 12 {
		return nil, false
	}
	f := decMono(k)[0]
	if f.exp != 1 {
		return nil, false
	}
	return atoms[f.atom], true
}
func (p *Poly) sortedKeys() []string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (p *Poly) key() string {
	if c, ok := p.isConst(); ok {
		return "c" + c.Text(62)
	}
	if a, ok := p.isAtom(); ok {
		return "a" + strconv.Itoa(a.id)
	}
	h := sha256.New()
	for _, k := range p.sortedKeys() {
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(len(k)))
		h.Write(l[:])
		h.Write([]byte(k))
		c := p.m[k].Text(62)
		binary.BigEndian.PutUint32(l[:], uint32(len(c)))
		h.Write(l[:])
		h.Write([]byte(c))
	}
	return "p" + hex.EncodeToString(h.Sum(nil)[:20])
}

// monic scales p so that the coefficient of its least monomial key is 1 and
// returns the scale factor removed.
func (p *Poly) monic() (*Poly, *big.Int) {
	ks := p.sortedKeys()
	c := p.m[ks[0]]
	inv := new(big.Int).ModInverse(c, modR)
	return polyScale(modR, p, inv), c
}

func (p *Poly) String() string {
	var parts []string
	for _, k := range p.sortedKeys() {
		var s []string
		cs := p.m[k].String()
		if len(cs) > 12 {
			cs = cs[:4] + ".." + cs[len(cs)-4:]
		}
		s = append(s, cs)
		for _, f := range decMono(k) {
			n := atoms[f.atom].t.str(3)
			if len(n) > 48 {
				n = n[:16] + "..#" + strconv.Itoa(f.atom)
			}
			if f.exp != 1 {
				n += fmt.Sprintf("^%d", f.exp)
			}
			s = append(s, n)
		}
		parts = append(parts, strings.Join(s, "*"))
		if len(parts) > 8 {
			parts = append(parts, "...")
			break
		}
	}
	if len(parts) == 0 {
		return "0"
	}
	return strings.Join(parts, " + ")
}

var ringOps int

// ---------- contexts ----------

type Ctx struct {
	subst   map[*Term]*Term     // solved variables
	onc     []*Term             // oncurve facts
	oncK    map[string]bool     // their keys, computed on demand
	inR     map[string]bool     // int atom keys known to be in [0,r)
	ub      map[string]*big.Int // other upper bounds of int atoms
	nonzero map[string]bool     // field poly keys (monic) known nonzero
	fsub    map[*Term]*Term     // integer variable -> solved value of its field residue
	fm      map[*Term]*Poly
	im      map[*Term]*Poly
	pm      map[*Term]*PtC
	rhs     int // the newest variable in a solved value
	floor   int // terms with a smaller ID kept their normal form in the last assumption
}

func newCtx() *Ctx {
	return &Ctx{subst: map[*Term]*Term{}, fsub: map[*Term]*Term{}, inR: map[string]bool{}, ub: map[string]*big.Int{}, nonzero: map[string]bool{}, fm: map[*Term]*Poly{}, im: map[*Term]*Poly{}, pm: map[*Term]*PtC{}}
}

// derive copies c.  from: what is about to be added only concerns terms that
// contain a variable with an ID >= from; the normal forms of older terms are
// kept, unless a solved value may mention such a variable.
func (c *Ctx) derive(from int) *Ctx {
	n := newCtx()
	if c.rhs >= from {
		from = 0
	}
	n.rhs, n.floor = c.rhs, c.floor
	if from < n.floor {
		n.floor = from
	}
	if from > 0 {
		for k, v := range c.fm {
			if k.ID < from {
				n.fm[k] = v
			}
		}
		for k, v := range c.im {
			if k.ID < from {
				n.im[k] = v
			}
		}
		for k, v := range c.pm {
			if k.ID < from {
				n.pm[k] = v
			}
		}
		if c.oncK != nil {
			n.oncK = c.oncK
			for _, f := range c.onc {
				if f.ID >= from {
					n.oncK = nil
				}
			}
		}
	}
	for k, v := range c.subst {
		n.subst[k] = v
	}
	for k, v := range c.fsub {
		n.fsub[k] = v
	}
	n.onc = c.onc
	for k := range c.inR {
		n.inR[k] = true
	}
	for k, v := range c.ub {
		n.ub[k] = v
	}
	for k := range c.nonzero {
		n.nonzero[k] = true
	}
	return n
}
func (c *Ctx) withSubst(v, t *Term) *Ctx {
	n := c.derive(v.ID)
	n.setSubst(v, t)
	return n
}
func (c *Ctx) setSubst(v, t *Term) {
	c.subst[v] = t
	if t.nv > c.rhs {
		c.rhs = t.nv
	}
}
func (c *Ctx) setFsub(v, t *Term) {
	c.fsub[v] = t
	if t.nv > c.rhs {
		c.rhs = t.nv
	}
}

// newestIn: the newest variable in p.
func newestIn(p *Poly) int {
	m := 0
	for k := range p.m {
		for _, f := range decMono(k) {
			if n := atoms[f.atom].t.nv; n > m {
				m = n
			}
		}
	}
	return m
}
func (c *Ctx) withInR(t *Term) *Ctx {
	k := c.I(t).key()
	if c.inR[k] {
		return c
	}
	n := c.derive(newestIn(c.I(t)))
	n.inR[k] = true
	if a, ok := c.I(t).isAtom(); ok && n.fsub[a.t] != nil { // t is the canonical residue of a known field value
		n.setSubst(a.t, FInt(n.fsub[a.t]))
		delete(n.fsub, a.t)
	}
	return n
}
func (c *Ctx) withUb(t *Term, hi *big.Int) *Ctx {
	k := c.I(t).key()
	if o := c.ub[k]; c.inR[k] && hi.Cmp(rMinus1) >= 0 || o != nil && o.Cmp(hi) <= 0 {
		return c
	}
	n := c.derive(newestIn(c.I(t)))
	n.ub[k] = hi
	return n
}
func (c *Ctx) withNonzero(f *Term) *Ctx {
	p := c.F(f)
	n := c.derive(newestIn(p))
	for _, k := range nzKeys(p) {
		n.nonzero[k] = true
	}
	return n
}
func nzKeys(p *Poly) []string {
	if p.isZero() {
		return nil
	}
	if k, _, ok := p.single(); ok { // product of atoms nonzero => each nonzero
		var r []string
		for _, f := range decMono(k) {
			r = append(r, polyAtom(atoms[f.atom], 1).key())
		}
		return r
	}
	m, _ := p.monic()
	return []string{m.key()}
}
func (c *Ctx) knownNonzero(p *Poly) bool {
	if v, ok := p.isConst(); ok {
		return v.Sign() != 0
	}
	for _, k := range nzKeys(p) {
		if !c.nonzero[k] {
			return false
		}
	}
	return true
}

func (c *Ctx) withOnc(p *Term) *Ctx {
	n := c.derive(p.nv)
	n.oncK = nil
	n.onc = append(append([]*Term{}, c.onc...), p)
	return n
}

// isOnc: the coordinates are known to satisfy the curve equation.
func (c *Ctx) isOnc(x, y *Term) bool {
	p := Pred("oncurve", x, y)
	if c.Decide(p) == 1 {
		return true
	}
	if len(c.onc) == 0 {
		return false
	}
	if c.oncK == nil {
		m := map[string]bool{}
		for _, f := range c.onc {
			m[c.argKeys(f.Args)] = true
		}
		c.oncK = m
	}
	return c.oncK[c.argKeys(p.Args)]
}

func pow2(v *big.Int) int {
	if v.Sign() <= 0 || v.TrailingZeroBits() != uint(v.BitLen()-1) {
		return -1
	}
	return v.BitLen() - 1
}

// F is the canonical polynomial over Z_r of a field term.
func (c *Ctx) F(t *Term) *Poly {
	if p, ok := c.fm[t]; ok {
		return p
	}
	p := c.fRaw(t)
	c.fm[t] = p
	return p
}

func (c *Ctx) fRaw(t *Term) *Poly {
	switch t.Op {
	case "const":
		return polyConst(t.K, modR)
	case "var":
		if s, ok := c.subst[t]; ok {
			return c.F(s)
		}
		return polyAtom(getAtom("fv:"+t.Name, t), 1)
	case "add":
		r := &Poly{map[string]*big.Int{}}
		for _, a := range t.Args {
			for k, v := range c.F(a).m {
				r.addTo(k, v, modR)
			}
		}
		return recompose(r, modR)
	case "mul":
		r := polyConst(big1, modR)
		for _, a := range t.Args {
			r = polyMul(modR, r, c.F(a))
		}
		return r
	case "inv":
		return c.invPoly(c.F(t.Args[0]))
	case "pow":
		return c.powPoly(t)
	case "fof":
		return c.fOfInt(t.Args[0])
	case "ite":
		switch c.Decide(t.Args[0]) {
		case 1:
			return c.F(t.Args[1])
		case -1:
			return c.F(t.Args[2])
		}
		a, b := c.F(t.Args[1]), c.F(t.Args[2])
		if a.key() == b.key() {
			return a
		}
		if v, ok := polySub(modR, a, b).isConst(); ok {
			return polyAdd(modR, b, polyScale(modR, c.bitPoly(t.Args[0], SFld), v))
		}
		return polyAtom(getAtomF("fite:"+c.BKey(t.Args[0])+":"+a.key()+":"+b.key(), func() *Term { return ite(SFld, c.norm(t.Args[0]), fTerm(a), fTerm(b)) }), 1)
	case "uf":
		return polyAtom(getAtomF("fuf:"+t.Name+c.argKeys(t.Args), func() *Term { return c.normArgs(t) }), 1)
	}
	panic("canon: field op " + t.Op)
}

func (c *Ctx) invPoly(p *Poly) *Poly {
	if v, ok := p.isConst(); ok {
		if v.Sign() == 0 {
			return polyConst(big0, modR) // inv(0)=0 by convention
		}
		return polyConst(new(big.Int).ModInverse(v, modR), modR)
	}
	if k, v, ok := p.single(); ok {
		fs := decMono(k)
		for i := range fs {
			fs[i].exp = -fs[i].exp
		}
		return &Poly{map[string]*big.Int{encMono(fs): new(big.Int).ModInverse(v, modR)}}
	}
	// factor out a common monomial
	p2, com := extractCommon(p)
	m, lead := p2.monic()
	a := getAtomF("inv:"+m.key(), func() *Term { return FInv(fTerm(m)) })
	a.inv = m
	r := polyAtom(a, 1)
	r = polyScale(modR, r, new(big.Int).ModInverse(lead, modR))
	if com != "" {
		fs := decMono(com)
		for i := range fs {
			fs[i].exp = -fs[i].exp
		}
		r = polyMul(modR, r, &Poly{map[string]*big.Int{encMono(fs): big.NewInt(1)}})
	}
	return r
}

// extractCommon factors the common monomial out of p.
func extractCommon(p *Poly) (*Poly, string) {
	var com map[int]int64
	for k := range p.m {
		cur := map[int]int64{}
		for _, f := range decMono(k) {
			cur[f.atom] = f.exp
		}
		if com == nil {
			com = cur
			continue
		}
		for a, e := range com {
			e2 := cur[a]
			if e2 < e {
				e = e2
			}
			com[a] = e
		}
		for a, e2 := range cur {
			if _, ok := com[a]; !ok && e2 < 0 {
				com[a] = e2
			}
		}
	}
	var fs, neg []monoFactor
	for a, e := range com {
		if e != 0 {
			fs = append(fs, monoFactor{a, e})
		}
	}
	if len(fs) == 0 {
		return p, ""
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].atom < fs[j].atom })
	for _, f := range fs {
		neg = append(neg, monoFactor{f.atom, -f.exp})
	}
	return polyMul(modR, p, &Poly{map[string]*big.Int{encMono(neg): big.NewInt(1)}}), encMono(fs)
}

func (c *Ctx) powPoly(t *Term) *Poly {
	b := c.F(t.Args[0])
	n := c.I(t.Args[1])
	if v, ok := n.isConst(); ok && v.IsInt64() {
		return c.powC(b, v.Int64(), t)
	}
	if v, ok := b.isConst(); ok && (v.Sign() == 0 || v.Cmp(big1) == 0) {
		if v.Cmp(big1) == 0 {
			return b
		}
	}
	// split n = const + rest
	k := new(big.Int)
	rest := &Poly{map[string]*big.Int{}}
	for m, v := range n.m {
		if m == "" {
			k = v
		} else {
			rest.m[m] = v
		}
	}
	a := getAtomF("fpow:"+b.key()+":"+rest.key(), func() *Term { return FPow(fTerm(b), iTerm(rest)) })
	r := polyAtom(a, 1)
	if k.Sign() != 0 && k.IsInt64() {
		r = polyMul(modR, r, c.powC(b, k.Int64(), nil))
	}
	return r
}

func (c *Ctx) powC(b *Poly, n int64, t *Term) *Poly {
	if n == 0 {
		return polyConst(big1, modR)
	}
	if k, v, ok := b.single(); ok {
		fs := decMono(k)
		for i := range fs {
			fs[i].exp *= n
		}
		e := new(big.Int).Mod(big.NewInt(n), rMinus1)
		return &Poly{map[string]*big.Int{encMono(fs): new(big.Int).Exp(v, e, modR)}}
	}
	if b.isZero() {
		return b
	}
	if n < 0 {
		return c.powC(c.invPoly(b), -n, nil)
	}
	if n <= 16 {
		r := polyConst(big1, modR)
		for i := int64(0); i < n; i++ {
			r = polyMul(modR, r, b)
		}
		return r
	}
	return polyAtom(getAtomF("fpow:"+b.key()+":"+strconv.FormatInt(n, 10), func() *Term { return FPow(fTerm(b), IC(n)) }), 1)
}

// fOfInt maps an integer term into the field.
func (c *Ctx) fOfInt(i *Term) *Poly {
	ip := c.I(i)
	r := &Poly{map[string]*big.Int{}}
	for k, v := range ip.m {
		term := polyConst(v, modR)
		for _, f := range decMono(k) {
			a := atoms[f.atom]
			var q *Poly
			if a.t.Op == "fint" {
				q = c.F(a.t.Args[0])
			} else if s := c.fsub[a.t]; s != nil {
				q = c.F(s)
			} else if a.t.Op == "ite" {
				q = c.F(FOf(a.t))
			} else {
				q = polyAtom(getAtom("fof:"+strconv.Itoa(a.id), FOf(a.t)), 1)
			}
			term = polyMul(modR, term, c.powC(q, f.exp, nil))
		}
		for k2, v2 := range term.m {
			r.addTo(k2, v2, modR)
		}
	}
	return recompose(r, modR)
}

// recompose replaces complete binary decompositions c*2^0*bits(v,0,l0) +
// c*2^l0*bits(v,l0,l1) + ... by c*v.
func recompose(p *Poly, mod *big.Int) *Poly {
	type piece struct {
		k     string
		lo, n int
		c     *big.Int
	}
	var by map[*Term][]piece
	for k, v := range p.m {
		if len(k) != 12 {
			continue
		}
		f := decMono(k)[0]
		if f.exp != 1 {
			continue
		}
		t := atoms[f.atom].t
		if t.Op == "fof" {
			t = t.Args[0]
		}
		if t.Op != "bits" {
			continue
		}
		if by == nil {
			by = map[*Term][]piece{}
		}
		by[t.Args[0]] = append(by[t.Args[0]], piece{k, t.N, t.M, v})
	}
	if by == nil {
		return p
	}
	r := p
	for v, ps := range by {
		sort.Slice(ps, func(i, j int) bool {
			if ps[i].lo != ps[j].lo {
				return ps[i].lo < ps[j].lo
			}
			return ps[i].n < ps[j].n
		})
		bl := bitLenBound(v)
		for i := 0; i < len(ps); {
			end := i + 1
			pos := ps[i].lo + ps[i].n
			for end < len(ps) && ps[end].lo == pos && redc(new(big.Int).Lsh(ps[i].c, uint(pos-ps[i].lo)), mod).Cmp(ps[end].c) == 0 {
				pos += ps[end].n
				end++
			}
			whole := bl >= 0 && ps[i].lo == 0 && pos >= bl
			if end == i+1 && !whole {
				i++
				continue
			}
			n := &Poly{make(map[string]*big.Int, len(r.m))}
			for k, x := range r.m {
				n.m[k] = x
			}
			for _, u := range ps[i:end] {
				delete(n.m, u.k)
			}
			c := ps[i].c
			switch {
			case whole && mod == nil:
				n.addTo(termAtomMono(v), c, nil)
			case mod == nil:
				n.addTo(termAtomMono(Bits(v, ps[i].lo, pos-ps[i].lo)), c, nil)
			default:
				t := v
				if !whole {
					t = Bits(v, ps[i].lo, pos-ps[i].lo)
				}
				for k2, v2 := range globalFOfAtomic(t).m {
					n.addTo(k2, new(big.Int).Mul(v2, c), mod)
				}
			}
			r = n
			i = end
		}
	}
	return r
}

// the argument of bits() is stored by its own representative term; the atom of
// that term in a neutral context
func termAtomMono(v *Term) string {
	c := newCtx()
	p := c.I(v)
	k, _, ok := p.single()
	if !ok {
		a := getAtom("opaqueint:"+strconv.Itoa(v.ID), v)
		return encMono([]monoFactor{{a.id, 1}})
	}
	return k
}
func globalFOfAtomic(v *Term) *Poly { return newCtx().fOfInt(v) }

// I is the canonical integer polynomial of an Int term.
func (c *Ctx) I(t *Term) *Poly {
	if p, ok := c.im[t]; ok {
		return p
	}
	p := c.divR(c.iRaw(t))
	c.im[t] = p
	return p
}

// divR rewrites r*floor(x/r) to x - (x mod r).
func (c *Ctx) divR(p *Poly) *Poly {
	var r *Poly
	for k, v := range p.m {
		if len(k) != 12 {
			continue
		}
		f := decMono(k)[0]
		t := atoms[f.atom].t
		if f.exp != 1 || t.Op != "divc" || t.K.Cmp(modR) != 0 {
			continue
		}
		q, m := new(big.Int).QuoRem(v, modR, new(big.Int))
		if m.Sign() != 0 {
			continue
		}
		if r == nil {
			r = &Poly{make(map[string]*big.Int, len(p.m))}
			for k, x := range p.m {
				r.m[k] = x
			}
		}
		delete(r.m, k)
		for k2, v2 := range polySub(nil, c.I(t.Args[0]), c.I(FInt(FOf(t.Args[0])))).m {
			r.addTo(k2, new(big.Int).Mul(v2, q), nil)
		}
	}
	if r == nil {
		return p
	}
	return r
}

func (c *Ctx) atomI(key string, t *Term) *Poly { return polyAtom(getAtom(key, t), 1) }
func (c *Ctx) atomIF(key string, f func() *Term) *Poly {
	return polyAtom(getAtomF(key, f), 1)
}

func getAtomF(key string, f func() *Term) *Atom {
	if a, ok := atomByKey[key]; ok {
		return a
	}
	return getAtom(key, f())
}

// fTerm / iTerm rebuild a term from a canonical polynomial; the result
// mentions canonical atoms only, so it means the same in every context in
// which its key can arise.
func fTerm(p *Poly) *Term {
	var ts []*Term
	for _, k := range p.sortedKeys() {
		fs := []*Term{FC(p.m[k])}
		for _, f := range decMono(k) {
			fs = append(fs, FPow(atoms[f.atom].t, IC(f.exp)))
		}
		ts = append(ts, FMul(fs...))
	}
	if len(ts) == 0 {
		return FCI(0)
	}
	return FAdd(ts...)
}
func iTerm(p *Poly) *Term {
	var ts []*Term
	for _, k := range p.sortedKeys() {
		t := ICB(p.m[k])
		for _, f := range decMono(k) {
			for i := int64(0); i < f.exp; i++ {
				t = IMul(t, atoms[f.atom].t)
			}
		}
		ts = append(ts, t)
	}
	return IAdd(ts...)
}
func (p *PtC) term() *Term {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ts []*Term
	for _, k := range ks {
		ts = append(ts, PMul(fTerm(p.m[k]), bases[k].t))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	if len(ts) == 0 {
		return PInf
	}
	return PAdd(ts...)
}
func (c *Ctx) normArgs(t *Term) *Term {
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = c.norm(a)
	}
	return mk(t.Op, t.S, t.Name, t.K, t.N, t.M, as...)
}

// norm is the canonical representative of any term.
func (c *Ctx) norm(t *Term) *Term {
	switch t.S {
	case SInt:
		return iTerm(c.I(t))
	case SFld:
		return fTerm(c.F(t))
	case SPt:
		return c.P(t).term()
	case SBool:
		switch c.Decide(t) {
		case 1:
			return TrueT
		case -1:
			return FalseT
		}
	}
	if t.Op == "var" {
		if s, ok := c.subst[t]; ok {
			return c.norm(s)
		}
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = c.norm(a)
	}
	return rebuild(t, as)
}

// bitPoly is the indicator of a condition: an atom [k] of the un-negated
// condition k, or 1-[k].
func (c *Ctx) bitPoly(b *Term, s Sort) *Poly {
	k := c.BKey(b)
	switch k {
	case "T":
		return polyConst(big1, nil)
	case "F":
		return polyConst(big0, nil)
	}
	mod := modR
	pre := "fite:"
	if s == SInt {
		mod, pre = nil, "iite:"
	}
	if strings.HasPrefix(k, "!") {
		return polySub(mod, polyConst(big1, mod), c.bitPoly(BNot(b), s))
	}
	p := polyAtom(getAtomF(pre+k+":1:0", func() *Term {
		return mk("ite", s, "", nil, 0, 0, c.norm(b), mk("const", s, "", big1, 0, 0), mk("const", s, "", big0, 0, 0))
	}), 1)
	return p
}

// bitEq: p == 0 where p is linear in one indicator, as a condition.
func bitEq(p *Poly) *Term {
	if len(p.m) == 0 || len(p.m) > 2 {
		return nil
	}
	k0 := new(big.Int)
	var k1 *big.Int
	var cond *Term
	for m, v := range p.m {
		if m == "" {
			k0 = v
			continue
		}
		fs := decMono(m)
		if len(fs) != 1 || fs[0].exp != 1 || k1 != nil {
			return nil
		}
		t := atoms[fs[0].atom].t
		if t.Op != "ite" || !t.Args[1].IsC() || !t.Args[2].IsC() || t.Args[1].K.Cmp(big1) != 0 || t.Args[2].K.Sign() != 0 {
			return nil
		}
		k1, cond = v, t.Args[0]
		if t.S == SFld {
			k0 = new(big.Int).Mod(k0, modR)
		}
	}
	if k1 == nil {
		return nil
	}
	s := new(big.Int).Add(k0, k1)
	switch {
	case k0.Sign() == 0:
		return BNot(cond)
	case s.Sign() == 0 || s.Cmp(modR) == 0:
		return cond
	}
	return FalseT
}

// eqBit: the equation a == b when it only speaks of one indicator.
func (c *Ctx) eqBit(a, b *Term) *Term {
	switch a.S {
	case SInt:
		if e := bitEq(polySub(nil, c.I(a), c.I(b))); e != nil {
			return e
		}
		if c.isCanonR(a) && c.isCanonR(b) {
			return bitEq(polySub(modR, c.F(FOf(a)), c.F(FOf(b))))
		}
	case SFld:
		return bitEq(polySub(modR, c.F(a), c.F(b)))
	}
	return nil
}

func (c *Ctx) iRaw(t *Term) *Poly {
	switch t.Op {
	case "const":
		return polyConst(t.K, nil)
	case "var":
		if s, ok := c.subst[t]; ok {
			return c.I(s)
		}
		return c.atomI("iv:"+t.Name, t)
	case "add":
		r := &Poly{map[string]*big.Int{}}
		for _, a := range t.Args {
			for k, v := range c.I(a).m {
				r.addTo(k, v, nil)
			}
		}
		return recompose(r, nil)
	case "mul":
		r := polyConst(big1, nil)
		for _, a := range t.Args {
			r = polyMul(nil, r, c.I(a))
		}
		return r
	case "fint":
		return c.iOfFld(t.Args[0])
	case "xint", "yint":
		p := c.P(t.Args[0])
		if b, ok := p.asBase(); ok {
			if t.Op == "xint" {
				return c.I(b.x)
			}
			return c.I(b.y)
		}
		if len(p.m) == 0 {
			return polyConst(big0, nil)
		}
		if x, y, ok := p.constPoint(); ok {
			if t.Op == "xint" {
				return polyConst(x, nil)
			}
			return polyConst(y, nil)
		}
		return c.atomIF(t.Op+":"+p.key(), func() *Term {
			if t.Op == "xint" {
				return mk("xint", SInt, "", nil, 0, 0, p.term())
			}
			return mk("yint", SInt, "", nil, 0, 0, p.term())
		})
	case "modc":
		a := c.reint(t.Args[0])
		if within(a, big0, new(big.Int).Sub(t.K, big1)) {
			return c.I(a)
		}
		if lo, hi := c.polyBounds(c.I(a)); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(t.K) < 0 {
			return c.I(a)
		}
		if v, ok := c.I(a).isConst(); ok {
			return polyConst(new(big.Int).Mod(v, t.K), nil)
		}
		if n := pow2(t.K); n >= 0 {
			if lo, _ := c.polyBounds(c.I(a)); lo != nil && lo.Sign() >= 0 {
				return c.I(Bits(a, 0, n))
			}
		}
		// reduce the coefficients modulo K
		q := &Poly{map[string]*big.Int{}}
		for k, v := range c.I(a).m {
			q.addTo(k, new(big.Int).Mod(v, t.K), nil)
		}
		if t.K.Cmp(modR) == 0 {
			return c.iOfFld(FOf(t.Args[0]))
		}
		return c.atomIF("modc:"+t.K.Text(62)+":"+q.key(), func() *Term { return mk("modc", SInt, "", t.K, 0, 0, iTerm(q)) })
	case "divc":
		a := c.I(t.Args[0])
		if v, ok := a.isConst(); ok {
			return polyConst(new(big.Int).Div(v, t.K), nil)
		}
		if n := pow2(t.K); n >= 0 {
			if lo, hi := c.polyBounds(a); lo != nil && lo.Sign() >= 0 && hi != nil {
				if hi.BitLen() <= n {
					return polyConst(big0, nil)
				}
				return c.I(Bits(c.reint(t.Args[0]), n, hi.BitLen()-n))
			}
		}
		return c.atomIF("divc:"+t.K.Text(62)+":"+a.key(), func() *Term { return mk("divc", SInt, "", t.K, 0, 0, iTerm(a)) })
	case "bits":
		a := c.reint(t.Args[0])
		if a != t.Args[0] {
			return c.I(Bits(a, t.N, t.M))
		}
		if lo, hi := c.polyBounds(c.I(a)); lo != nil && lo.Sign() >= 0 && hi != nil {
			bl := hi.BitLen()
			if t.N >= bl {
				return polyConst(big0, nil)
			}
			if t.N == 0 && t.M >= bl {
				return c.I(a)
			}
			if t.M > bl-t.N {
				return c.I(mk("bits", SInt, "", nil, t.N, bl-t.N, a))
			}
		}
		return c.atomIF(fmt.Sprintf("bits:%d:%d:%s", t.N, t.M, c.I(a).key()), func() *Term { return mk("bits", SInt, "", nil, t.N, t.M, a) })
	case "ite":
		switch c.Decide(t.Args[0]) {
		case 1:
			return c.I(t.Args[1])
		case -1:
			return c.I(t.Args[2])
		}
		a, b := c.I(t.Args[1]), c.I(t.Args[2])
		if a.key() == b.key() {
			return a
		}
		if v, ok := polySub(nil, a, b).isConst(); ok {
			return polyAdd(nil, b, polyScale(nil, c.bitPoly(t.Args[0], SInt), v))
		}
		return c.atomIF("iite:"+c.BKey(t.Args[0])+":"+a.key()+":"+b.key(), func() *Term { return ite(SInt, c.norm(t.Args[0]), iTerm(a), iTerm(b)) })
	case "uf":
		return c.atomIF("iuf:"+t.Name+c.argKeys(t.Args), func() *Term { return c.normArgs(t) })
	}
	panic("canon: int op " + t.Op)
}

// reint rewrites an Int term to the representative of its canonical form when
// that is a single atom or a constant (so that variable substitutions reach
// the arguments of bits/modc).
func (c *Ctx) reint(t *Term) *Term {
	p := c.I(t)
	if v, ok := p.isConst(); ok {
		return ICB(v)
	}
	return iTerm(p)
}

func (c *Ctx) intInR(a *Atom) bool {
	if within(a.t, big0, rMinus1) {
		return true
	}
	return c.inR[polyAtom(a, 1).key()]
}

// iOfFld is the canonical integer of the least nonnegative residue of f.
func (c *Ctx) iOfFld(f *Term) *Poly {
	p := c.F(f)
	if v, ok := p.isConst(); ok {
		return polyConst(v, nil)
	}
	// sum of nonnegative integer atoms whose total bound is < r
	sum := new(big.Int)
	r := &Poly{map[string]*big.Int{}}
	ok := true
	if q := c.bitSum(p); q != nil {
		return q
	}
	for k, v := range p.m {
		if k == "" {
			sum.Add(sum, v)
			r.addTo("", v, nil)
			continue
		}
		fs := decMono(k)
		if len(fs) != 1 || fs[0].exp != 1 {
			ok = false
			break
		}
		t := atoms[fs[0].atom].t
		if t.Op != "fof" {
			ok = false
			break
		}
		it := t.Args[0]
		ip := c.I(it)
		ia, isA := ip.isAtom()
		if !isA {
			ok = false
			break
		}
		hi := it.hi
		if hi == nil || hi.Cmp(modR) >= 0 {
			if c.intInR(ia) {
				hi = rMinus1
			} else {
				ok = false
				break
			}
		}
		if it.lo == nil || it.lo.Sign() < 0 {
			if !c.intInR(ia) {
				ok = false
				break
			}
		}
		sum.Add(sum, new(big.Int).Mul(v, hi))
		if sum.Cmp(modR) >= 0 {
			ok = false
			break
		}
		for k2, v2 := range ip.m {
			r.addTo(k2, new(big.Int).Mul(v2, v), nil)
		}
	}
	if ok {
		return recompose(r, nil)
	}
	return c.atomIF("fint:"+p.key(), func() *Term { return mk("fint", SInt, "", nil, 0, 0, fTerm(p)) })
}

// bitSum is the integer of a combination of indicators that lies in [0,r)
// when its coefficients are read as signed numbers.
func (c *Ctx) bitSum(p *Poly) *Poly {
	r := &Poly{map[string]*big.Int{}}
	half := new(big.Int).Rsh(modR, 1)
	for k, v := range p.m {
		if v.Cmp(half) > 0 {
			v = new(big.Int).Sub(v, modR)
		}
		if k == "" {
			r.addTo("", v, nil)
			continue
		}
		fs := decMono(k)
		if len(fs) != 1 || fs[0].exp != 1 {
			return nil
		}
		t := atoms[fs[0].atom].t
		if t.Op != "ite" || !t.Args[1].IsC() || !t.Args[2].IsC() {
			return nil
		}
		for k2, v2 := range c.bitPoly(t.Args[0], SInt).m {
			r.addTo(k2, new(big.Int).Mul(v2, v), nil)
		}
	}
	if lo, hi := c.polyBounds(r); lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(modR) >= 0 {
		return nil
	}
	return r
}

func (c *Ctx) argKeys(as []*Term) string {
	if len(as) > 8 {
		h := sha256.New()
		for _, a := range as {
			h.Write([]byte(c.Key(a)))
			h.Write([]byte{0})
		}
		return "(#" + strconv.Itoa(len(as)) + hex.EncodeToString(h.Sum(nil)[:20]) + ")"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	for _, a := range as {
		sb.WriteString(c.Key(a))
		sb.WriteByte(',')
	}
	sb.WriteByte(')')
	return sb.String()
}

// Key is a canonical key of any term.
func (c *Ctx) Key(t *Term) string {
	switch t.S {
	case SInt:
		return "I" + c.I(t).key()
	case SFld:
		return "F" + c.F(t).key()
	case SPt:
		return "P" + c.P(t).key()
	case SBool:
		return "B" + c.BKey(t)
	}
	if t.Op == "var" {
		if s, ok := c.subst[t]; ok {
			return c.Key(s)
		}
		return "O" + t.Name
	}
	if t.Op == "ite" {
		switch c.Decide(t.Args[0]) {
		case 1:
			return c.Key(t.Args[1])
		case -1:
			return c.Key(t.Args[2])
		}
	}
	return "O" + t.Op + ":" + t.Name + c.argKeys(t.Args)
}

// ---------- points ----------

type baseInfo struct {
	key   string
	x, y  *Term
	isVar bool
	t     *Term
}
type PtC struct {
	m map[string]*Poly // base key -> coefficient
}

var bases = map[string]*baseInfo{}

func (p *PtC) key() string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "*" + p.m[k].key() + ";")
	}
	s := sb.String()
	if len(s) > 120 {
		h := sha256.Sum256([]byte(s))
		return "h" + hex.EncodeToString(h[:20])
	}
	return s
}
func (p *PtC) asBase() (*baseInfo, bool) {
	if len(p.m) != 1 {
		return nil, false
	}
	for k, c := range p.m {
		if v, ok := c.isConst(); ok && v.Cmp(big1) == 0 && !bases[k].isVar {
			return bases[k], true
		}
	}
	return nil, false
}

// constPoint evaluates an all-constant combination of constant bases.
func (p *PtC) constPoint() (x, y *big.Int, ok bool) {
	ax, ay := new(big.Int), new(big.Int)
	for k, c := range p.m {
		b := bases[k]
		v, isC := c.isConst()
		if !isC || b.isVar || !b.x.IsC() || !b.y.IsC() || !onCurveC(b.x.K, b.y.K) {
			return nil, nil, false
		}
		mx, my := ecMulC(b.x.K, b.y.K, v)
		ax, ay = ecAddC(ax, ay, mx, my)
	}
	return ax, ay, true
}

func (c *Ctx) P(t *Term) *PtC {
	if p, ok := c.pm[t]; ok {
		return p
	}
	p := c.pRaw(t)
	c.pm[t] = p
	return p
}

func (c *Ctx) pRaw(t *Term) *PtC {
	switch t.Op {
	case "inf":
		return &PtC{map[string]*Poly{}}
	case "var":
		if s, ok := c.subst[t]; ok {
			return c.P(s)
		}
		k := "pv:" + t.Name
		bases[k] = &baseInfo{key: k, isVar: true, t: t}
		return &PtC{map[string]*Poly{k: polyConst(big1, modR)}}
	case "base":
		xp, yp := c.I(t.Args[0]), c.I(t.Args[1])
		xc, ok1 := xp.isConst()
		yc, ok2 := yp.isConst()
		if ok1 && ok2 && xc.Sign() == 0 && yc.Sign() == 0 {
			return &PtC{map[string]*Poly{}}
		}
		// coordinates of a known point
		if xa, ok := xp.isAtom(); ok && xa.t.Op == "xint" {
			if ya, ok := yp.isAtom(); ok && ya.t.Op == "yint" {
				px, py := c.P(xa.t.Args[0]), c.P(ya.t.Args[0])
				if px.key() == py.key() {
					return px
				}
			}
		}
		coef := big.NewInt(1)
		x, y := t.Args[0], t.Args[1]
		if ok1 && ok2 {
			x, y = ICB(xc), ICB(yc)
			half := new(big.Int).Rsh(modP, 1)
			if yc.Cmp(half) > 0 && yc.Cmp(modP) < 0 {
				y = ICB(new(big.Int).Sub(modP, yc))
				yp = polyConst(y.K, nil)
				coef = big.NewInt(-1)
			}
		}
		k := "pt:" + xp.key() + "," + yp.key()
		if _, ok := bases[k]; !ok {
			if !x.IsC() || !y.IsC() {
				x, y = iTerm(xp), iTerm(yp)
			}
			bases[k] = &baseInfo{key: k, x: x, y: y, t: mk("base", SPt, "", nil, 0, 0, x, y)}
		}
		return &PtC{map[string]*Poly{k: polyConst(coef, modR)}}
	case "add":
		r := map[string]*Poly{}
		for _, a := range t.Args {
			for k, v := range c.P(a).m {
				if o, ok := r[k]; ok {
					v = polyAdd(modR, o, v)
				}
				if v.isZero() {
					delete(r, k)
				} else {
					r[k] = v
				}
			}
		}
		return &PtC{r}
	case "smul":
		f := c.F(t.Args[0])
		r := map[string]*Poly{}
		for k, v := range c.P(t.Args[1]).m {
			x := polyMul(modR, f, v)
			if !x.isZero() {
				r[k] = x
			}
		}
		return &PtC{r}
	case "ite":
		switch c.Decide(t.Args[0]) {
		case 1:
			return c.P(t.Args[1])
		case -1:
			return c.P(t.Args[2])
		}
		k := "pite:" + c.BKey(t.Args[0]) + c.P(t.Args[1]).key() + ":" + c.P(t.Args[2]).key()
		if bases[k] == nil {
			bases[k] = &baseInfo{key: k, isVar: true, t: ite(SPt, c.norm(t.Args[0]), c.P(t.Args[1]).term(), c.P(t.Args[2]).term())}
		}
		return &PtC{map[string]*Poly{k: polyConst(big1, modR)}}
	case "uf":
		if t.Name == "offcurve" && c.isOnc(t.Args[0], t.Args[1]) {
			return c.P(PBase(t.Args[0], t.Args[1]))
		}
		k := "puf:" + t.Name + c.argKeys(t.Args)
		if bases[k] == nil {
			bases[k] = &baseInfo{key: k, isVar: true, t: c.normArgs(t)}
		}
		return &PtC{map[string]*Poly{k: polyConst(big1, modR)}}
	}
	panic("canon: point op " + t.Op)
}

// ---------- booleans ----------

// zeroF decides whether the canonical polynomial is zero, clearing inverse
// atoms whose denominators are known to be nonzero.
func (c *Ctx) zeroF(p *Poly) (zero bool, q *Poly) {
	if p.isZero() {
		return true, p
	}
	for iter := 0; iter < 12; iter++ {
		// find inverse atoms with positive exponents
		var tgt *Atom
		for k := range p.m {
			for _, f := range decMono(k) {
				a := atoms[f.atom]
				if a.inv != nil && f.exp > 0 && c.knownNonzero(a.inv) {
					if tgt == nil || a.id > tgt.id {
						tgt = a
					}
				}
			}
		}
		if tgt == nil {
			return false, p
		}
		var emax int64
		groups := map[int64]*Poly{}
		for k, v := range p.m {
			fs := decMono(k)
			var e int64
			rest := fs[:0:0]
			for _, f := range fs {
				if f.atom == tgt.id {
					e = f.exp
				} else {
					rest = append(rest, f)
				}
			}
			if e > emax {
				emax = e
			}
			g := groups[e]
			if g == nil {
				g = &Poly{map[string]*big.Int{}}
				groups[e] = g
			}
			g.addTo(encMono(rest), v, modR)
		}
		r := &Poly{map[string]*big.Int{}}
		for e, g := range groups {
			pw := polyConst(big1, modR)
			for i := int64(0); i < emax-e; i++ {
				pw = polyMul(modR, pw, tgt.inv)
			}
			r = polyAdd(modR, r, polyMul(modR, g, pw))
		}
		p = r
		if p.isZero() {
			return true, p
		}
	}
	return false, p
}

// eqKey returns (decided, key): decided 1/-1/0.
func (c *Ctx) eqNorm(a, b *Term) (int, string) {
	switch a.S {
	case SInt:
		d := polySub(nil, c.I(a), c.I(b))
		if v, ok := d.isConst(); ok {
			if v.Sign() == 0 {
				return 1, ""
			}
			return -1, ""
		}
		// both are canonical residues: compare in the field
		if k, ok := c.fieldEq(a, b); ok {
			return k, "E" + fkey(c, a, b)
		}
		lo, hi := c.polyBounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return -1, ""
		}
		k1 := d.key()
		k2 := polyScale(nil, d, big.NewInt(-1)).key()
		if k2 < k1 {
			k1 = k2
		}
		return 0, "Z" + k1
	case SFld:
		d := polySub(modR, c.F(a), c.F(b))
		if z, _ := c.zeroF(d); z {
			return 1, ""
		}
		if v, ok := d.isConst(); ok && v.Sign() != 0 {
			return -1, ""
		}
		if c.knownNonzero(d) {
			return -1, ""
		}
		m, _ := d.monic()
		return 0, "E" + m.key()
	case SPt:
		pa, pb := c.P(a), c.P(b)
		if pa.key() == pb.key() {
			return 1, ""
		}
		all := true
		for k := range pa.m {
			if _, ok := pb.m[k]; !ok {
				all = false
			}
		}
		for k := range pb.m {
			if _, ok := pa.m[k]; !ok {
				all = false
			}
		}
		if all {
			eq := true
			for k, v := range pa.m {
				if z, _ := c.zeroF(polySub(modR, v, pb.m[k])); !z {
					eq = false
				}
			}
			if eq {
				return 1, ""
			}
		}
		k1, k2 := pa.key(), pb.key()
		if k2 < k1 {
			k1, k2 = k2, k1
		}
		return 0, "Q" + k1 + "=" + k2
	}
	k1, k2 := c.Key(a), c.Key(b)
	if k1 == k2 {
		return 1, ""
	}
	if k2 < k1 {
		k1, k2 = k2, k1
	}
	return 0, "O" + k1 + "=" + k2
}

func (c *Ctx) polyBounds(d *Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for k, v := range d.m {
		if k == "" {
			if lo != nil {
				lo = new(big.Int).Add(lo, v)
			}
			if hi != nil {
				hi = new(big.Int).Add(hi, v)
			}
			continue
		}
		fs := decMono(k)
		if len(fs) != 1 || fs[0].exp != 1 {
			return nil, nil
		}
		a := atoms[fs[0].atom]
		al, ah := a.t.lo, a.t.hi
		if u := c.ub[polyAtom(a, 1).key()]; u != nil && (ah == nil || u.Cmp(ah) < 0) {
			ah = u
		}
		if c.inR[polyAtom(a, 1).key()] {
			if al == nil || al.Sign() < 0 {
				al = big0
			}
			if ah == nil || ah.Cmp(rMinus1) > 0 {
				ah = rMinus1
			}
		}
		if v.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(v, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(v, ah))
			}
		}
	}
	return
}

func (c *Ctx) isCanonR(a *Term) bool {
	p := c.I(a)
	if v, ok := p.isConst(); ok {
		return v.Sign() >= 0 && v.Cmp(modR) < 0
	}
	if at, ok := p.isAtom(); ok {
		return c.intInR(at)
	}
	lo, hi := c.polyBounds(p)
	return lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(modR) < 0
}

// fieldEq: if both integers lie in [0,r), equality is field equality.
func (c *Ctx) fieldEq(a, b *Term) (int, bool) {
	if !c.isCanonR(a) || !c.isCanonR(b) {
		return 0, false
	}
	d := polySub(modR, c.F(FOf(a)), c.F(FOf(b)))
	if z, _ := c.zeroF(d); z {
		return 1, true
	}
	if v, ok := d.isConst(); ok && v.Sign() != 0 {
		return -1, true
	}
	if c.knownNonzero(d) {
		return -1, true
	}
	return 0, true
}
func fkey(c *Ctx, a, b *Term) string {
	d := polySub(modR, c.F(FOf(a)), c.F(FOf(b)))
	if d.isZero() {
		return "0"
	}
	m, _ := d.monic()
	return m.key()
}

// Decide evaluates a boolean by normalisation only: 1 true, -1 false, 0 unknown.
func (c *Ctx) Decide(b *Term) int {
	switch b.Op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -c.Decide(b.Args[0])
	case "and":
		all := 1
		for _, a := range b.Args {
			d := c.Decide(a)
			if d == -1 {
				return -1
			}
			if d == 0 {
				all = 0
			}
		}
		return all
	case "eq":
		d, _ := c.eqNorm(b.Args[0], b.Args[1])
		if d == 0 {
			if e := c.eqBit(b.Args[0], b.Args[1]); e != nil {
				return c.Decide(e)
			}
		}
		return d
	case "le":
		d := polySub(nil, c.I(b.Args[1]), c.I(b.Args[0]))
		lo, hi := c.polyBounds(d)
		if lo != nil && lo.Sign() >= 0 {
			return 1
		}
		if hi != nil && hi.Sign() < 0 {
			return -1
		}
		return 0
	case "var":
		if s, ok := c.subst[b]; ok {
			return c.Decide(s)
		}
	case "uf":
		if b.Name == "oncurve" {
			x, y := c.I(b.Args[0]), c.I(b.Args[1])
			xc, ok1 := x.isConst()
			yc, ok2 := y.isConst()
			if ok1 && ok2 {
				if onCurveC(xc, yc) {
					return 1
				}
				return -1
			}
			if xa, ok := x.isAtom(); ok && xa.t.Op == "xint" {
				if ya, ok := y.isAtom(); ok && ya.t.Op == "yint" && c.P(xa.t.Args[0]).key() == c.P(ya.t.Args[0]).key() {
					return 1
				}
			}
		}
	}
	return 0
}

// BKey is a canonical key for a boolean atom or formula.
func (c *Ctx) BKey(b *Term) string {
	switch c.Decide(b) {
	case 1:
		return "T"
	case -1:
		return "F"
	}
	switch b.Op {
	case "not":
		if k := c.BKey(b.Args[0]); strings.HasPrefix(k, "!") {
			return k[1:]
		} else {
			return "!" + k
		}
	case "and":
		var ks []string
		seen := map[string]bool{}
		for _, a := range b.Args {
			k := c.BKey(a)
			if k == "T" || seen[k] {
				continue
			}
			seen[k] = true
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 1 {
			return ks[0]
		}
		return "&{" + strings.Join(ks, ",") + "}"
	case "eq":
		if e := c.eqBit(b.Args[0], b.Args[1]); e != nil {
			return c.BKey(e)
		}
		_, k := c.eqNorm(b.Args[0], b.Args[1])
		return "=" + k
	case "le":
		d := polySub(nil, c.I(b.Args[1]), c.I(b.Args[0]))
		return "<" + d.key()
	case "var":
		return "b:" + b.Name
	case "uf":
		return "u:" + b.Name + c.argKeys(b.Args)
	case "ite":
		return "ite{" + c.BKey(b.Args[0]) + "," + c.BKey(b.Args[1]) + "," + c.BKey(b.Args[2]) + "}"
	case "forall":
		return "A" + b.Name + c.argKeys(b.Args)
	}
	panic("BKey " + b.Op)
}

// ---------- concrete BN254 arithmetic (coordinates mod p, (0,0) = infinity) ----------

func onCurveC(x, y *big.Int) bool {
	l := new(big.Int).Mod(new(big.Int).Mul(y, y), modP)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(3))
	r.Mod(r, modP)
	return l.Cmp(r) == 0 || x.Sign() == 0 && y.Sign() == 0
}
func ecAddC(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1.Sign() == 0 && y1.Sign() == 0 {
		return x2, y2
	}
	if x2.Sign() == 0 && y2.Sign() == 0 {
		return x1, y1
	}
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(y1, y2), modP).Sign() == 0 {
			return new(big.Int), new(big.Int)
		}
		l = new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(x1, x1))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(y1, 1), modP))
	} else {
		l = new(big.Int).Sub(y2, y1)
		d := new(big.Int).Mod(new(big.Int).Sub(x2, x1), modP)
		l.Mul(l, d.ModInverse(d, modP))
	}
	l.Mod(l, modP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1).Sub(x, x2).Mod(x, modP)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l).Sub(y, y1).Mod(y, modP)
	return x, y
}
func ecMulC(x, y, k *big.Int) (*big.Int, *big.Int) {
	rx, ry := new(big.Int), new(big.Int)
	ax, ay := x, y
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			rx, ry = ecAddC(rx, ry, ax, ay)
		}
		ax, ay = ecAddC(ax, ay, ax, ay)
	}
	return rx, ry
}
