package main

// Loop summarisation: an inductive invariant in closed form is inferred for the
// loop-carried values and checked by one symbolic iteration (base case: the
// entry values; step: iteration k maps the closed form at k to the one at k+1).

import (
	"fmt"
	"go/token"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var loopsSummarised = map[string]string{}

// a loop-carried scalar: a header phi, or a heap cell
type carried struct {
	phi  *ssa.Phi
	ptr  Ptr // heap cell (phi == nil)
	kind string
	init *Term
	ph   *Term // placeholder
	next *Term
	at   func(k *Term) *Term
	ifc  Iface
}

func (ex *Exec) summarise(fr *Frame, st *State, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, work *[]workItem, rr *runResult) {
	if ex.noSummary {
		unsup("loop with symbolic bound in %s", fr.fn)
	}
	name := fmt.Sprintf("%s#%d", fr.fn.Name(), header.Index)
	k := IVar(freshName("k_"+name+"!"), big0, nil)

	// discover the heap cells the body writes by a trial iteration
	dirty := ex.trial(fr, st, header, body)

	// Two symbolic iterations: the first finds the inductions (int values that
	// change by a constant), the second runs with those in closed form and with
	// 0/1 accumulators bounded, which is checked to be inductive.
	known := map[string]*Term{} // carried value -> closed form at k
	bits := map[string]bool{}
	ckey := func(c *carried) string {
		if c.phi != nil {
			return "phi:" + c.phi.Name()
		}
		return fmt.Sprint("cell:", c.ptr)
	}
	nctx := newCtx()
	isBit := func(s *State, t *Term) bool { return s.decide(BAnd(Le(IC(0), t), Le(t, IC(1)))) == 1 }
	var base *State
	var bf *Frame
	var cs []*carried
	var fixedPtr map[*ssa.Phi]Val
	grows := map[*ssa.Phi]*grown{} // slices that get one element longer
	slides := map[*ssa.Phi]*slide{} // slices whose bounds move by constants
	var arrs []dirtyCell
	var r *runResult
	iterate := func() {
		base = st.clone()
		bf = fr.clone()
		bf.rep = map[*ssa.BasicBlock]bool{}
		for h := range fr.rep {
			bf.rep[h] = true
		}
		bf.rep[header] = true
		bf.stop = &loopStop{header, body}
		cs = nil
		fixedPtr = map[*ssa.Phi]Val{}
		arrs = nil
		for _, in := range header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := fr.env[phi]
			switch x := v.(type) {
			case *Term:
				if x.S == SBool {
					c := &carried{phi: phi, kind: "bool", init: x}
					c.ph = mk("var", SBool, freshName("ph_"+name+"!"), nil, 0, 0)
					bf.env[phi] = c.ph
					cs = append(cs, c)
					continue
				}
				c := &carried{phi: phi, kind: "int", init: x}
				c.ph = IVar(freshName("ph_"+name+"!"), nil, nil)
				bf.env[phi] = c.ph
				if t := known[ckey(c)]; t != nil {
					bf.env[phi] = t
				}
				cs = append(cs, c)
			case Iface:
				t, why := ex.varTerm(st, x)
				if why != "" {
					if x.T == nil {
						fixedPtr[phi] = v
						continue
					}
					unsup("loop-carried %s", why)
				}
				c := &carried{phi: phi, kind: "var", init: t, ifc: x}
				hi := max256
				if bits[ckey(c)] {
					hi = big1
				}
				c.ph = IVar(freshName("ph_"+name+"!"), big0, hi)
				bf.env[phi] = ex.newVar(base, c.ph)
				cs = append(cs, c)
			case Slice:
				if g := grows[phi]; g != nil {
					g.enter(ex, bf, base, k)
					continue
				}
				if g := slides[phi]; g != nil {
					bf.env[phi] = g.at(k)
					continue
				}
				fixedPtr[phi] = v
			default:
				fixedPtr[phi] = v
			}
		}
		for _, d := range dirty {
			if moved(grows, d.obj) {
				continue
			}
			v := getPath(base.heap[d.obj].V, d.path, base)
			switch x := v.(type) {
			case *Term:
				c := &carried{ptr: Ptr{d.obj, d.path}, kind: "cell", init: x}
				if x.S == SBool {
					unsup("loop-carried boolean cell")
				}
				c.ph = IVar(freshName("ph_"+name+"!"), nil, nil)
				base.store(c.ptr, c.ph)
				if t := known[ckey(c)]; t != nil {
					base.store(c.ptr, t)
				}
				cs = append(cs, c)
			case Iface:
				t, why := ex.varTerm(st, x)
				if why != "" {
					unsup("loop in %s writes %s", fr.fn, why)
				}
				c := &carried{ptr: Ptr{d.obj, d.path}, kind: "varcell", init: t, ifc: x}
				hi := max256
				if bits[ckey(c)] {
					hi = big1
				}
				c.ph = IVar(freshName("ph_"+name+"!"), big0, hi)
				base.store(c.ptr, ex.newVar(base, c.ph))
				cs = append(cs, c)
			case GenArr:
				arrs = append(arrs, d)
			default:
				unsup("loop in %s writes %T", fr.fn, v)
			}
		}
		base.assume(Le(IC(0), k))
		if inv := notEqualBound(ex, st, bf, base, header, k, cs); inv != nil {
			base.assume(inv)
		}

		// one symbolic iteration
		r = &runResult{}
		ws := []workItem{{bf.clone(), base.clone(), header, nil, 0}}
		for len(ws) > 0 {
			w := ws[len(ws)-1]
			ws = ws[:len(ws)-1]
			ex.step(w, &ws, r)
		}
	}
	nextOf := func(c *carried, back workItem) *Term {
		var v Val
		if c.phi != nil {
			v = back.fr.env[c.phi]
		} else {
			v = back.st.load(c.ptr)
		}
		switch c.kind {
		case "var", "varcell":
			t, why := ex.varTerm(back.st, v)
			if why != "" {
				unsup("loop-carried %s", why)
			}
			return t
		}
		t, ok := v.(*Term)
		if !ok {
			unsup("loop cell")
		}
		return t
	}
	quiet := ex.mode
	_ = quiet
	hits := len(ex.compileHits)
	_ = hits
	for round := 0; ; round++ {
		iterate()
		changed := false
		if len(r.backs) >= 1 {
			for p, v := range fixedPtr {
				s0, ok := v.(Slice)
				if !ok {
					continue
				}
				s1, ok := r.backs[0].fr.env[p].(Slice)
				if g := slideOf(nctx, s0, s1); ok && g != nil {
					slides[p] = g
					changed = true
					continue
				}
				if d, isC := polySub(nil, nctx.I(s1.lenT()), nctx.I(s0.Len)).isConst(); ok && isC && d.Cmp(big1) == 0 {
					grows[p] = &grown{phi: p, init: s0, inPlace: s1.Obj == s0.Obj && s0.Obj != 0}
					changed = true
				}
			}
			for _, c := range cs {
				key := ckey(c)
				switch c.kind {
				case "int", "cell":
					if known[key] == nil {
						step := (*Term)(nil)
						ok := true
						for _, b := range r.backs {
							nx := nextOf(c, b)
							if nx.Op == "modc" {
								nx = nx.Args[0] // whether it wraps is checked by the next round
							}
							d := polySub(nil, nctx.I(nx), nctx.I(c.ph))
							v, is := d.isConst()
							if !is || step != nil && step.K.Cmp(v) != 0 {
								ok = false
								break
							}
							step = ICB(v)
						}
						if ok && step != nil {
							known[key] = IAdd(c.init, IMul(step, k))
							changed = true
						}
					}
				case "var", "varcell":
					if _, tried := bits[key]; !tried {
						bits[key] = isBit(st, c.init)
						changed = changed || bits[key]
					} else if bits[key] {
						for _, b := range r.backs {
							if !isBit(b.st, nextOf(c, b)) {
								bits[key] = false
								changed = true
							}
						}
					}
				}
			}
		}
		if os.Getenv("GCV_LOOP") != "" {
			fmt.Fprintln(os.Stderr, "loop", name, "round", round, "backs", len(r.backs), "exits", len(r.exits), "outs", len(r.outs), "known", known, "bits", bits)
			for _, o := range r.outs {
				fmt.Fprintln(os.Stderr, "   out", o.panic, o.why, o.st.dead, o.st.facts)
			}
			for _, c := range cs {
				for _, b := range r.backs {
					fmt.Fprintln(os.Stderr, "   ", ckey(c), c.kind, c.init, "next", nextOf(c, b))
				}
			}
		}
		if !changed || round > 6 {
			if changed {
				unsup("loop invariants of %s do not stabilise", fr.fn)
			}
			break
		}
	}
	for _, o := range r.outs {
		if o.st.dead {
			continue
		}
		if !o.panic {
			unsup("return inside a loop with symbolic bound in %s", fr.fn)
		}
		if ex.mode == Complete {
			unsup("possible panic inside a loop with symbolic bound in %s: %s", fr.fn, o.why)
		}
	}
	if len(r.backs) != 1 {
		unsup("loop in %s has %d symbolic back edges", fr.fn, len(r.backs))
	}
	if len(r.exits) != 1 {
		unsup("loop in %s has %d symbolic exits", fr.fn, len(r.exits))
	}
	back := r.backs[0]
	phSet := map[*Term]bool{}
	for _, c := range cs {
		phSet[c.ph] = true
	}
	for _, g := range grows {
		g.step(ex, back, base, k)
	}
	for p, g := range slides {
		s, ok := back.fr.env[p].(Slice)
		if !ok || !g.holds(nctx, s, IAdd(k, IC(1))) {
			unsup("bounds of a loop-carried slice in %s", fr.fn)
		}
		loopsSummarised[name] += " slide"
	}
	for p, v := range fixedPtr {
		if !sameVal(back.fr.env[p], v) {
			unsup("loop-carried pointer changes in %s", fr.fn)
		}
	}
	for _, c := range cs {
		c.next = nextOf(c, back)
	}
	// solve the recurrences; inductions first
	sol := map[*Term]*Term{} // placeholder -> closed form at k
	dep := func(t *Term) []*Term {
		var r []*Term
		for _, v := range sortedVars(t) {
			if phSet[v] {
				r = append(r, v)
			}
		}
		return r
	}
	for _, c := range cs {
		c := c
		if c.kind == "bool" {
			continue
		}
		if t := known[ckey(c)]; t != nil { // induction, checked by the last iteration
			d := polySub(nil, nctx.I(c.next), nctx.I(t))
			v, ok := d.isConst()
			if !ok || nctx.I(IAdd(c.init, IMul(ICB(v), k))).key() != nctx.I(t).key() {
				unsup("loop induction of %s", fr.fn)
			}
			c.at = func(k *Term) *Term { return IAdd(c.init, IMul(ICB(v), k)) }
			sol[c.ph] = c.at(k)
			loopsSummarised[name] += " induction"
			continue
		}
		if nctx.I(c.next).key() == nctx.I(c.ph).key() { // unchanged
			c.at = func(*Term) *Term { return c.init }
			sol[c.ph] = c.init
			continue
		}
		d := polySub(nil, nctx.I(c.next), nctx.I(c.ph))
		if v, ok := d.isConst(); ok {
			c.at = func(k *Term) *Term { return IAdd(c.init, IMul(ICB(v), k)) }
			sol[c.ph] = c.at(k)
			loopsSummarised[name] += " induction"
		}
	}
	for pass := 0; pass < 4; pass++ {
		for _, c := range cs {
			c := c
			if c.at != nil {
				continue
			}
			next := substTerm(c.next, sol, map[*Term]*Term{})
			ds := dep(next)
			if len(ds) > 1 || len(ds) == 1 && ds[0] != c.ph {
				continue
			}
			if f, how := closedForm(c, next, k, nctx); f != nil {
				c.at = f
				sol[c.ph] = f(k)
				loopsSummarised[name] += " " + how
			}
		}
	}
	for _, c := range cs {
		if c.at == nil {
			unsup("no closed form for a loop-carried value in %s (step %s)", fr.fn, c.next)
		}
	}
	// array writes
	type arrSum struct {
		d dirtyCell
		w []GWrite
	}
	var asums []arrSum
	var lastPatch []func(K *Term) GWrite
	for _, d := range arrs {
		before := getPath(base.heap[d.obj].V, d.path, base).(GenArr)
		after := getPath(back.st.heap[d.obj].V, d.path, back.st).(GenArr)
		nw := after.Writes[len(before.Writes):]
		if len(nw) != 1 {
			unsup("loop writes an array %d times per iteration", len(nw))
		}
		w := nw[0]
		lo := substTerm(w.Lo, sol, map[*Term]*Term{})
		dk := polySub(nil, nctx.I(lo), nctx.I(k))
		off, ok := dk.isConst()
		if !ok {
			unsup("array write index is not k+c")
		}
		v := substVal(portable(w.V, back.st, base), sol)
		idx := IVar(freshName("wi_"+name+"!"), nil, nil)
		v = substVal(v, map[*Term]*Term{k: ISub(idx, ICB(off))})
		asums = append(asums, arrSum{d, nil})
		offT := ICB(off)
		lastPatch = append(lastPatch, func(K *Term) GWrite {
			return GWrite{Lo: offT, Hi: IAdd(offT, K), K: idx, V: v}
		})
		loopsSummarised[name] += " map-write"
	}

	// number of iterations from the header condition at k
	cond := headerCond(ex, bf, base, header)
	ck := substTerm(cond.(*Term), sol, map[*Term]*Term{})
	inTrue := body[header.Succs[0]]
	if !inTrue {
		ck = BNot(ck)
	}
	ck = normCond(ck)
	if ck.Op == "not" && ck.Args[0].Op == "eq" && ck.Args[0].Args[0].S == SInt {
		// i != n: the loop ends when d reaches zero from above
		e := ck.Args[0]
		d := ISub(e.Args[1], e.Args[0])
		if cf := coefOf(nctx, d, k); cf != nil && cf.Cmp(big1) == 0 {
			d = INeg(d)
		}
		d0 := substTerm(d, map[*Term]*Term{k: IC(0)}, map[*Term]*Term{})
		if st.decide(Le(IC(0), d0)) == 1 {
			ck = Le(IC(1), d)
		}
	}
	if ck.Op != "le" {
		unsup("loop condition of %s is not a linear comparison: %s", fr.fn, ck)
	}
	d := ISub(ck.Args[1], ck.Args[0])
	cf := coefOf(nctx, d, k)
	if cf == nil || cf.Cmp(big.NewInt(-1)) != 0 {
		unsup("loop condition of %s does not decrease by one", fr.fn)
	}
	d0 := substTerm(d, map[*Term]*Term{k: IC(0)}, map[*Term]*Term{})
	n := st.ctx.reint(IAdd(d0, IC(1))) // iterations if >= 0

	finish := func(s *State, K *Term) {
		if os.Getenv("GCV_LOOP") != "" {
			for _, c := range cs {
				fmt.Fprintln(os.Stderr, "finish", name, "K", K, ckey(c), c.at(K))
			}
		}
		f := fr.clone()
		f.rep = map[*ssa.BasicBlock]bool{}
		for h := range fr.rep {
			f.rep[h] = true
		}
		f.rep[header] = true
		for _, c := range cs {
			v := c.at(K)
			switch {
			case c.phi != nil && c.kind == "var":
				if K.IsC() && K.K.Sign() == 0 {
					f.env[c.phi] = c.ifc
				} else {
					f.env[c.phi] = ex.newVar(s, v)
				}
			case c.phi != nil:
				f.env[c.phi] = v
			case c.kind == "varcell":
				if K.IsC() && K.K.Sign() == 0 {
					s.store(c.ptr, c.ifc)
				} else {
					s.store(c.ptr, ex.newVar(s, v))
				}
			default:
				s.store(c.ptr, v)
			}
		}
		for p, g := range slides {
			f.env[p] = g.at(K)
		}
		for _, g := range grows {
			g.finish(ex, f, s, K, k, sol, name)
		}
		for i, a := range asums {
			g := getPath(s.heap[a.d.obj].V, a.d.path, s).(GenArr)
			ng := GenArr{g.Len, g.Idx, g.Gen, mergeWrite(append([]GWrite{}, g.Writes...), lastPatch[i](K))}
			s.store(Ptr{a.d.obj, a.d.path}, ng)
		}
		// run the header once more and leave the loop
		f.stop = &loopStop{header, map[*ssa.BasicBlock]bool{header: true}}
		sub := &runResult{}
		w2 := []workItem{{f, s, header, nil, 0}}
		for len(w2) > 0 {
			w := w2[len(w2)-1]
			w2 = w2[:len(w2)-1]
			ex.step(w, &w2, sub)
		}
		rr.outs = append(rr.outs, sub.outs...)
		for _, e := range sub.exits {
			if body[e.b] { // condition still true: contradiction with K
				if e.st.decide(FalseT) != 1 && !e.st.dead {
					e.st.dead = true
				}
				continue
			}
			e.fr.stop = fr.stop
			if fr.stop != nil {
				if e.b == fr.stop.header {
					ex.enter(e.fr, e.st, header, e.b)
					rr.backs = append(rr.backs, e)
					continue
				}
				if !fr.stop.body[e.b] {
					e.prev = header
					rr.exits = append(rr.exits, e)
					continue
				}
			}
			ex.enter(e.fr, e.st, header, e.b)
			delete(e.fr.rep, header)
			*work = append(*work, workItem{e.fr, e.st, e.b, header, 0})
		}
	}
	switch st.decide(Le(IC(0), n)) {
	case 1:
		finish(st, n)
	case -1:
		finish(st, IC(0))
	default:
		s2 := st.clone()
		if s2.assume(Lt(n, IC(0))) {
			finish(s2, IC(0))
		}
		if st.assume(Le(IC(0), n)) {
			finish(st, n)
		}
	}
}

// notEqualBound: a loop that counts by one until it reaches a bound at or
// above its start has not passed the bound.
func notEqualBound(ex *Exec, st *State, bf *Frame, base *State, header *ssa.BasicBlock, k *Term, cs []*carried) *Term {
	ifi, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.NEQ && bo.Op != token.EQL {
		return nil
	}
	cond, _ := headerCond(ex, bf, base, header).(*Term)
	if cond == nil {
		return nil
	}
	if cond.Op == "not" {
		cond = cond.Args[0]
	}
	if cond.Op != "eq" || cond.Args[0].S != SInt {
		return nil
	}
	c := newCtx()
	d := ISub(cond.Args[1], cond.Args[0])
	cf := coefOf(c, d, k)
	if cf == nil || cf.CmpAbs(big1) != 0 {
		return nil
	}
	if cf.Sign() > 0 {
		d = INeg(d)
	}
	for _, x := range cs { // the bound does not change
		if termHas(d, x.ph, map[*Term]bool{}) {
			return nil
		}
	}
	d0 := substTerm(d, map[*Term]*Term{k: IC(0)}, map[*Term]*Term{})
	if st.decide(Le(IC(0), d0)) != 1 {
		return nil
	}
	return Le(IC(0), d)
}

// normCond pushes comparisons of ite-of-constants down to their conditions.
func normCond(b *Term) *Term {
	switch b.Op {
	case "not":
		a := normCond(b.Args[0])
		if a.Op == "le" { // not (x<=y)  ==  y+1<=x
			return Le(IAdd(a.Args[1], IC(1)), a.Args[0])
		}
		return BNot(a)
	case "and":
		// d != 0 and 0 <= d
		if len(b.Args) == 2 {
			x, y := normCond(b.Args[0]), normCond(b.Args[1])
			if x.Op == "le" {
				x, y = y, x
			}
			if y.Op == "le" && x.Op == "not" && x.Args[0].Op == "eq" && x.Args[0].Args[0].S == SInt {
				c := newCtx()
				p := polySub(nil, c.I(y.Args[1]), c.I(y.Args[0]))
				q := polySub(nil, c.I(x.Args[0].Args[0]), c.I(x.Args[0].Args[1]))
				if p.key() == q.key() || p.key() == polyScale(nil, q, big.NewInt(-1)).key() {
					return Le(IAdd(y.Args[0], IC(1)), y.Args[1])
				}
			}
		}
	}
	return b
}

func coefOf(c *Ctx, t, k *Term) *big.Int {
	p := c.I(t)
	ka, ok := c.I(k).isAtom()
	if !ok {
		return nil
	}
	key := encMono([]monoFactor{{ka.id, 1}})
	for m := range p.m {
		if m == key {
			continue
		}
		for _, f := range decMono(m) {
			if f.atom == ka.id || termHas(atoms[f.atom].t, k, map[*Term]bool{}) {
				return nil
			}
		}
	}
	return p.m[key]
}

// headerCond re-evaluates the header block to obtain its branch condition in
// terms of the placeholders.
func headerCond(ex *Exec, bf *Frame, base *State, header *ssa.BasicBlock) Val {
	f, s := bf.clone(), base.clone()
	for _, in := range header.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			return ex.val(f, s, x.Cond)
		case *ssa.Call:
			outs := ex.doCall(f, s, &x.Call, x)
			if len(outs) != 1 || outs[0].panic {
				unsup("loop header call with several outcomes")
			}
			s = outs[0].st
			f.env[x] = outs[0].ret
		default:
			ex.instr(f, s, in)
		}
	}
	unsup("loop header without branch")
	return nil
}

// closedForm solves next = step(ph, k) for a non-inductive value.
func closedForm(c *carried, next, k *Term, ctx *Ctx) (func(*Term) *Term, string) {
	if c.kind == "bool" {
		return nil, ""
	}
	fph := FOf(c.ph)
	// selection of a constant bit: c ? 1 : acc and the like
	if next.Op == "ite" && bitHi(c.ph) && !termHas(next.Args[0], c.ph, map[*Term]bool{}) {
		cnd, x, y := next.Args[0], next.Args[1], next.Args[2]
		if x == c.ph {
			cnd, x, y = BNot(cnd), y, x
		}
		if y == c.ph && x.IsC() && x.K.Sign() == 0 {
			return func(K *Term) *Term {
				return ofBool(BAnd(boolOf(c.init), BNot(Exists(k, IC(0), K, cnd))))
			}, "and-fold"
		}
		if y == c.ph && x.IsC() && x.K.Cmp(big1) == 0 {
			return func(K *Term) *Term {
				return ofBool(BOr(boolOf(c.init), Exists(k, IC(0), K, cnd)))
			}, "or-fold"
		}
	}
	// boolean accumulators: next = ofBool(bool(ph) \/ m(k)) or conjunction
	if next.Op == "ite" && next.Args[1].IsC() && next.Args[2].IsC() && next.Args[1].K.Cmp(big1) == 0 && next.Args[2].K.Sign() == 0 {
		cnd := next.Args[0]
		acc := Eq(c.ph, IC(1))
		isOr := func(g *Term) (*Term, bool) { // g = !( !acc && rest )
			if g.Op != "not" || g.Args[0].Op != "and" {
				return nil, false
			}
			var rest []*Term
			found := false
			for _, a := range g.Args[0].Args {
				if a == BNot(acc) {
					found = true
					continue
				}
				rest = append(rest, BNot(a))
			}
			if !found {
				return nil, false
			}
			return BOr(rest...), true
		}
		if m, ok := isOr(cnd); ok && !termHas(m, c.ph, map[*Term]bool{}) {
			return func(K *Term) *Term {
				return ofBool(BOr(boolOf(c.init), Exists(k, IC(0), K, m)))
			}, "or-fold"
		}
		if cnd.Op == "and" {
			var rest []*Term
			found := false
			for _, a := range cnd.Args {
				if a == acc {
					found = true
					continue
				}
				rest = append(rest, a)
			}
			m := BAnd(rest...)
			if found && !termHas(m, c.ph, map[*Term]bool{}) {
				return func(K *Term) *Term {
					return ofBool(BAnd(boolOf(c.init), BNot(Exists(k, IC(0), K, BNot(m)))))
				}, "and-fold"
			}
		}
		return nil, ""
	}
	if next.Op == "fint" {
		p := ctx.F(next.Args[0])
		a, ok := ctx.F(fph).isAtom()
		if !ok {
			return nil, ""
		}
		key := encMono([]monoFactor{{a.id, 1}})
		// geometric: next = m*ph with m independent of ph and k
		coef := &Poly{map[string]*big.Int{}}
		rest := &Poly{map[string]*big.Int{}}
		lin := true
		for mk_, v := range p.m {
			fs := decMono(mk_)
			has := false
			var o []monoFactor
			for _, f := range fs {
				if f.atom == a.id {
					has = true
					if f.exp != 1 {
						lin = false
					}
					continue
				}
				if termHas(atoms[f.atom].t, c.ph, map[*Term]bool{}) {
					lin = false
				}
				o = append(o, f)
			}
			if has {
				coef.addTo(encMono(o), v, modR)
			} else {
				rest.addTo(mk_, v, modR)
			}
		}
		_ = key
		kz := func(p *Poly) *Term { return fTerm(p) }
		if !lin {
			// fall through to the recursive definition below
		} else if rest.isZero() && fHasVar(coef, k) {
			m := kz(coef)
			return func(K *Term) *Term {
				return FInt(FMul(FOf(c.init), FoldF("prodfold", k, IC(0), K, m)))
			}, "product-fold"
		} else if v, ok := coef.isConst(); ok && v.Cmp(big1) == 0 {
			m := kz(rest)
			return func(K *Term) *Term {
				return FInt(FAdd(FOf(c.init), FoldF("sumfold", k, IC(0), K, m)))
			}, "sum-fold"
		} else if rest.isZero() && !fHasVar(coef, k) {
			m := fTerm(coef)
			return func(K *Term) *Term { return FInt(FMul(FOf(c.init), FPow(m, K))) }, "geometric"
		}
		// primitive recursion: rec(init, K) with the step as its identity
		acc := FVar("rec_acc")
		step := substTerm(fTerm(p), map[*Term]*Term{fph: acc, k: RecIdx}, map[*Term]*Term{})
		step = substTerm(step, map[*Term]*Term{c.ph: FInt(acc)}, map[*Term]*Term{})
		return func(K *Term) *Term { return FInt(Rec(step, FOf(c.init), K)) }, "recursion"
	}
	return nil, ""
}

var RecIdx = IVar("rec_i", nil, nil)

// Rec is the value after K steps of acc := step(acc, i), i = 0..K-1; it is
// identified by the canonical form of its step.
func Rec(step, init, K *Term) *Term {
	return UF(SFld, "rec:"+newCtx().F(step).key(), init, K)
}

var exBound = IVar("ex_i", nil, nil)

// Exists is "there is i with lo <= i < hi and m(i)"; m is normalised to a
// canonical bound variable.
func Exists(i, lo, hi, m *Term) *Term {
	noCapture(i, m)
	b := substTerm(m, map[*Term]*Term{i: exBound}, map[*Term]*Term{})
	if l, ok := newCtx().I(lo).isConst(); ok {
		if h, ok := newCtx().I(hi).isConst(); ok && h.IsInt64() && h.Int64()-l.Int64() <= 64 {
			var os []*Term
			for j := l.Int64(); j < h.Int64(); j++ {
				os = append(os, substTerm(b, map[*Term]*Term{exBound: IC(j)}, map[*Term]*Term{}))
			}
			return BOr(os...)
		}
	}
	b = forward(lo, hi, b)
	return mk("uf", SBool, "exists", nil, 0, 0, lo, hi, b)
}

// forward renames i to lo+hi-1-i when the body counts down: the range of a
// fold over a commutative operation may be visited in either direction.
func forward(lo, hi, b *Term) *Term {
	down := ISub(IAdd(lo, hi), IAdd(IC(1), exBound))
	up, dn := 0, 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.S == SInt && t != exBound && (t.Op == "add" || t.Op == "mul") && termHas(t, exBound, map[*Term]bool{}) {
			if cf := coefOf(newCtx(), t, exBound); cf != nil {
				if cf.Sign() < 0 {
					dn++
				} else {
					up++
				}
				return
			}
		}
		for _, a := range t.Args {
			if a == exBound {
				up++
			}
			walk(a)
		}
	}
	walk(b)
	if dn == 0 || up > 0 {
		return b
	}
	return affine(substTerm(b, map[*Term]*Term{exBound: down}, map[*Term]*Term{}), map[*Term]*Term{})
}

// affine simplifies the integer sums in a term.
func affine(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if t.S == SInt && t.Op == "add" {
		r = iTerm(newCtx().I(t))
	} else if len(t.Args) > 0 {
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = affine(a, memo)
			ch = ch || as[i] != a
		}
		if ch {
			r = rebuild(t, as)
		}
	}
	memo[t] = r
	return r
}

// grown is a loop-carried slice to which every iteration appends one element.
type grown struct {
	phi     *ssa.Phi
	init    Slice
	inPlace bool
	obj     int // the placeholder's array (not inPlace)
	pre     int
	v       Val // the element appended by iteration k
}

// slide is a loop-carried slice of one array whose offset, length and capacity
// change by constants, as in s = s[1:].
type slide struct {
	init           Slice
	off, ln, capty *Term
}

func (g *slide) at(k *Term) Slice {
	s := g.init
	s.Off, s.Len, s.Cap = IAdd(s.Off, IMul(g.off, k)), IAdd(s.Len, IMul(g.ln, k)), IAdd(s.Cap, IMul(g.capty, k))
	return s
}

func (g *slide) holds(c *Ctx, s Slice, k *Term) bool {
	w := g.at(k)
	same := func(a, b *Term) bool { return c.I(a).key() == c.I(b).key() }
	return s.Obj == w.Obj && samePath(s.Path, w.Path) && same(s.Off, w.Off) && same(s.Len, w.Len) && same(s.Cap, w.Cap)
}

// slideOf: the step from one iteration's slice to the next one's, if constant;
// a slice that keeps its start and gets longer is not one.
func slideOf(c *Ctx, a, b Slice) *slide {
	if a.Obj == 0 || a.Obj != b.Obj || !samePath(a.Path, b.Path) {
		return nil
	}
	g := &slide{init: a}
	for _, d := range []struct {
		to   **Term
		x, y *Term
	}{{&g.off, a.Off, b.Off}, {&g.ln, a.Len, b.Len}, {&g.capty, a.Cap, b.Cap}} {
		if d.x == nil || d.y == nil {
			return nil
		}
		v, ok := polySub(nil, c.I(d.y), c.I(d.x)).isConst()
		if !ok {
			return nil
		}
		*d.to = ICB(v)
	}
	if g.off.K.Sign() == 0 && g.ln.K.Sign() >= 0 {
		return nil
	}
	return g
}

func (s Slice) lenT() *Term {
	if s.Len == nil {
		return IC(0)
	}
	return s.Len
}

func moved(gs map[*ssa.Phi]*grown, obj int) bool {
	for _, g := range gs {
		if !g.inPlace && obj == g.init.Obj {
			return true
		}
	}
	return false
}

// array is a copy of the initial elements with room for n more.
func (g *grown) array(ex *Exec, st *State, n *Term) Slice {
	total := IAdd(g.init.Len, n)
	p := st.alloc(nil, GenArr{Len: total, Idx: IVar(freshName("idx!"), nil, nil)})
	r := Slice{p.Obj, nil, IC(0), total, IVar(freshName("cap!"), big0, nil)}
	if g.init.Obj != 0 {
		ex.copyRange(st, r, IC(0), g.init, g.init.Len)
	}
	return r
}

func (g *grown) enter(ex *Exec, f *Frame, st *State, k *Term) {
	if g.inPlace {
		s := g.init
		s.Len = IAdd(s.Len, k)
		f.env[g.phi] = s
		return
	}
	s := g.array(ex, st, k)
	g.obj = s.Obj
	g.pre = len(st.heap[s.Obj].V.(GenArr).Writes)
	f.env[g.phi] = s
}

func (g *grown) step(ex *Exec, back workItem, base *State, k *Term) {
	s, ok := back.fr.env[g.phi].(Slice)
	c := newCtx()
	if !ok || c.I(s.Len).key() != c.I(IAdd(g.init.Len, IAdd(k, IC(1)))).key() || len(s.Path) != 0 && !g.inPlace {
		unsup("loop-carried slice")
	}
	if g.inPlace {
		if s.Obj != g.init.Obj || s.Off != g.init.Off || s.Cap != g.init.Cap {
			unsup("loop-carried slice is reallocated")
		}
		return // its elements are array writes of an object that outlives the loop
	}
	a, ok := back.st.heap[s.Obj].V.(GenArr)
	if !ok || len(a.Writes) != g.pre+1 || !s.Off.IsC() || s.Off.K.Sign() != 0 {
		unsup("loop-carried slice changes other than by one append")
	}
	w := a.Writes[g.pre]
	if w.K != nil || c.I(w.Lo).key() != c.I(IAdd(g.init.Len, k)).key() {
		unsup("loop-carried slice: write elsewhere")
	}
	b0 := base.heap[g.obj].V.(GenArr)
	for i := range b0.Writes {
		if b0.Writes[i].Lo != a.Writes[i].Lo || b0.Writes[i].Hi != a.Writes[i].Hi || !sameVal(b0.Writes[i].V, a.Writes[i].V) {
			unsup("loop-carried slice: earlier elements change")
		}
	}
	g.v = portable(w.V, back.st, base)
}

func (g *grown) finish(ex *Exec, f *Frame, st *State, K, k *Term, sol map[*Term]*Term, name string) {
	loopsSummarised[name] += " append"
	if g.inPlace {
		s := g.init
		s.Len = IAdd(s.Len, K)
		f.env[g.phi] = s
		return
	}
	if K.IsC() && K.K.Sign() == 0 {
		f.env[g.phi] = g.init
		return
	}
	s := g.array(ex, st, K)
	idx := IVar(freshName("ai_"+name+"!"), nil, nil)
	v := substVal(substVal(g.v, sol), map[*Term]*Term{k: ISub(idx, g.init.Len)})
	a := st.heap[s.Obj].V.(GenArr)
	st.store(Ptr{Obj: s.Obj}, GenArr{a.Len, a.Idx, a.Gen, mergeWrite(append([]GWrite{}, a.Writes...), GWrite{Lo: g.init.Len, Hi: s.Len, K: idx, V: v})})
	st.assume(Le(s.Len, s.Cap))
	if g.init.Obj != 0 {
		n := *st.heap[g.init.Obj]
		n.V = nil
		st.heap[g.init.Obj] = &n
	}
	f.env[g.phi] = s
}

// portable rewrites a value made by one iteration so that it no longer refers
// to objects which that iteration allocated: numbers behind such pointers are
// kept as immutable cells.
func portable(v Val, back, base *State) Val {
	switch x := v.(type) {
	case Ptr:
		if x.Obj == 0 || base.heap[x.Obj] != nil {
			return x
		}
		if t, ok := back.load(x).(*Term); ok {
			return SymPtr{t}
		}
		unsup("array element points to memory allocated in the loop")
	case Iface:
		return Iface{x.T, portable(x.V, back, base)}
	case Struct:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = portable(x.F[i], back, base)
		}
		return Struct{f}
	case Arr:
		f := make([]Val, len(x.E))
		for i := range f {
			f[i] = portable(x.E[i], back, base)
		}
		return Arr{f}
	case Slice:
		if x.Obj != 0 && base.heap[x.Obj] == nil {
			unsup("array element is a slice allocated in the loop")
		}
	}
	return v
}

func bitHi(t *Term) bool { return t.hi != nil && t.hi.Cmp(big1) == 0 && t.lo != nil && t.lo.Sign() == 0 }

func noCapture(i, m *Term) {
	if i != exBound && termHas(m, exBound, map[*Term]bool{}) {
		unsup("nested fold over a symbolic range")
	}
}

// FoldF is the product or the sum of m(i) over lo <= i < hi in the field.
func FoldF(op string, i, lo, hi, m *Term) *Term {
	noCapture(i, m)
	return mk("uf", SFld, op, nil, 0, 0, lo, hi, forward(lo, hi, substTerm(m, map[*Term]*Term{i: exBound}, map[*Term]*Term{})))
}

// foldZero states when a term that contains a fold is zero: a product is zero
// iff one of its factors is; a sum of at most 2^31 bits iff all of them are.
func foldZero(t *Term) (*Term, bool) {
	switch {
	case t.Op == "fint":
		return foldZero(t.Args[0])
	case t.Op == "uf" && t.Name == "prodfold":
		return Exists(exBound, t.Args[0], t.Args[1], Eq(t.Args[2], FCI(0))), true
	case t.Op == "uf" && t.Name == "sumfold":
		b := t.Args[2]
		if b.Op == "fof" {
			b = b.Args[0]
		}
		if n := t.Args[1].hi; b.Op != "ite" || n == nil || n.BitLen() > 64 {
			return nil, false
		}
		for _, a := range b.Args[1:] {
			if !a.IsC() || a.K.Sign() != 0 && a.K.Cmp(big1) != 0 {
				return nil, false
			}
		}
		return BNot(Exists(exBound, t.Args[0], t.Args[1], BNot(Eq(b, mk("const", b.S, "", big0, 0, 0))))), true
	case t.Op == "mul" && t.S == SFld:
		any := false
		var zs []*Term
		for _, a := range t.Args {
			if z, ok := foldZero(a); ok {
				any = true
				zs = append(zs, z)
			} else {
				zs = append(zs, Eq(a, FCI(0)))
			}
		}
		return BOr(zs...), any
	}
	return nil, false
}

type dirtyCell struct {
	obj  int
	path []PathElem
}

// trial runs one iteration from the entry values to find which pre-existing
// heap objects the loop body changes.
func (ex *Exec) trial(fr *Frame, st *State, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []dirtyCell {
	f, s := fr.clone(), st.clone()
	f.rep = map[*ssa.BasicBlock]bool{}
	for h := range fr.rep {
		f.rep[h] = true
	}
	f.rep[header] = true
	f.stop = &loopStop{header, body}
	r := &runResult{}
	ws := []workItem{{f, s, header, nil, 0}}
	for len(ws) > 0 {
		w := ws[len(ws)-1]
		ws = ws[:len(ws)-1]
		ex.step(w, &ws, r)
	}
	seen := map[string]dirtyCell{}
	for _, b := range r.backs {
		for id, o := range st.heap {
			n := b.st.heap[id]
			if n != o {
				for _, p := range diffPaths(o.V, n.V, nil) {
					seen[fmt.Sprint(id, p)] = dirtyCell{id, p}
				}
			}
		}
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []dirtyCell
	for _, k := range ks {
		out = append(out, seen[k])
	}
	return out
}

func diffPaths(a, b Val, path []PathElem) [][]PathElem {
	if sameVal(a, b) {
		return nil
	}
	switch x := a.(type) {
	case Struct:
		if y, ok := b.(Struct); ok {
			var r [][]PathElem
			for i := range x.F {
				r = append(r, diffPaths(x.F[i], y.F[i], ext(path, PathElem{I: i}))...)
			}
			return r
		}
	case Arr:
		unsup("loop with symbolic bound writes a concrete array")
	}
	return [][]PathElem{path}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return x.T == y.T && sameVal(x.V, y.V)
	case GenArr:
		y, ok := b.(GenArr)
		if !ok || x.Len != y.Len || x.Idx != y.Idx || len(x.Writes) != len(y.Writes) {
			return false
		}
		return true
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.Fn == y.Fn && len(x.Bind) == 0 && len(y.Bind) == 0
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.P) != len(y.P) {
			return false
		}
		for i := range x.P {
			if x.P[i] != y.P[i] {
				return false
			}
		}
		return true
	case Opq:
		y, ok := b.(Opq)
		if !ok || x.Kind != y.Kind || len(x.D) != len(y.D) {
			return false
		}
		for k, v := range x.D {
			w, ok := y.D[k]
			if !ok {
				return false
			}
			if !sameAny(v, w) {
				return false
			}
		}
		return true
	case ErrV:
		y, ok := b.(ErrV)
		return ok && x == y
	case SymPtr:
		y, ok := b.(SymPtr)
		return ok && sameVal(x.V, y.V)
	case nil:
		return b == nil
	}
	return false
}
func sameAny(v, w Val) bool {
	if vs, ok := v.([]Val); ok {
		ws, ok := w.([]Val)
		if !ok || len(vs) != len(ws) {
			return false
		}
		for i := range vs {
			if !sameVal(vs[i], ws[i]) {
				return false
			}
		}
		return true
	}
	if s, ok := v.(string); ok {
		t, ok := w.(string)
		return ok && s == t
	}
	return sameVal(v, w)
}
func samePath(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if constElem(a[i]) != constElem(b[i]) {
			return false
		}
	}
	return true
}

func constElem(e PathElem) PathElem {
	if e.Sym != nil && e.Sym.IsC() && e.Sym.K.IsInt64() {
		return PathElem{I: int(e.Sym.K.Int64())}
	}
	return e
}

// mergeWrite adds a loop's write; the elements written just before it (by
// iterations that were executed one by one) join it where they fit its form.
func mergeWrite(ws []GWrite, w GWrite) []GWrite {
	for len(ws) > 0 && w.K != nil {
		l := ws[len(ws)-1]
		if l.K != nil || l.Hi != w.Lo || l.Hi != IAdd(l.Lo, IC(1)) || !sameVal(l.V, substVal(w.V, map[*Term]*Term{w.K: l.Lo})) {
			break
		}
		ws, w.Lo = ws[:len(ws)-1], l.Lo
	}
	return append(ws, w)
}

var _ = strings.Contains
