package main

// SMT-LIB back end (z3, cvc5) for integer comparisons and their boolean
// structure.  Non-arithmetic subterms are abstracted by integer constants with
// their interval bounds.

import (
	"bytes"
	"fmt"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"time"
)

var smtCalls, smtUnsat int
var smtTime time.Duration
var smtCache = map[string]int{}

type smtEnc struct {
	c    *Ctx
	vars map[string]*Term // name -> rep
	bv   map[string]bool
	ok   bool
}

func smtNum(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (e *smtEnc) poly(p *Poly) string {
	var ts []string
	for _, k := range p.sortedKeys() {
		fs := decMono(k)
		parts := []string{smtNum(p.m[k])}
		for _, f := range fs {
			a := atoms[f.atom]
			n := fmt.Sprintf("a%d", a.id)
			if a.t.Op == "ite" && a.t.S == SInt {
				n = "(ite " + e.b(a.t.Args[0]) + " " + e.poly(e.c.I(a.t.Args[1])) + " " + e.poly(e.c.I(a.t.Args[2])) + ")"
			} else {
				e.vars[n] = a.t
			}
			for i := int64(0); i < f.exp; i++ {
				parts = append(parts, n)
			}
		}
		if len(parts) == 1 {
			ts = append(ts, parts[0])
		} else {
			ts = append(ts, "(* "+strings.Join(parts, " ")+")")
		}
	}
	if len(ts) == 0 {
		return "0"
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

func (e *smtEnc) b(t *Term) string {
	switch e.c.Decide(t) {
	case 1:
		return "true"
	case -1:
		return "false"
	}
	switch t.Op {
	case "not":
		return "(not " + e.b(t.Args[0]) + ")"
	case "and":
		var as []string
		for _, a := range t.Args {
			as = append(as, e.b(a))
		}
		return "(and " + strings.Join(as, " ") + ")"
	case "le":
		return "(<= " + e.poly(e.c.I(t.Args[0])) + " " + e.poly(e.c.I(t.Args[1])) + ")"
	case "eq":
		if t.Args[0].S == SInt {
			return "(= " + e.poly(e.c.I(t.Args[0])) + " " + e.poly(e.c.I(t.Args[1])) + ")"
		}
		if t.Args[0].S == SFld {
			// canonical residues of both sides
			return "(= " + e.poly(e.c.I(FInt(t.Args[0]))) + " " + e.poly(e.c.I(FInt(t.Args[1]))) + ")"
		}
	}
	n := "b_" + sanitize(e.c.BKey(t))
	e.bv[n] = true
	return n
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			sb.WriteRune(r)
		} else {
			fmt.Fprintf(&sb, "_%x", r)
		}
	}
	return sb.String()
}

func smtRelevant(t *Term, d int) bool {
	if d > 6 {
		return false
	}
	switch t.Op {
	case "le":
		return true
	case "eq":
		return t.Args[0].S == SInt || t.Args[0].S == SFld
	case "not", "and":
		for _, a := range t.Args {
			if smtRelevant(a, d+1) {
				return true
			}
		}
	case "var", "uf":
		return t.S == SBool
	}
	return false
}

// smtDecide returns 1 if facts imply b, -1 if facts imply !b, else 0.
func (s *State) smtDecide(b *Term) int {
	if noSMT || !smtRelevant(b, 0) {
		return 0
	}
	enc := func(neg bool) string {
		e := &smtEnc{c: s.ctx, vars: map[string]*Term{}, bv: map[string]bool{}, ok: true}
		g := b
		if neg {
			g = BNot(b)
		}
		goal := e.b(g)
		var as []string
		// facts sharing variables, to a fixpoint
		used := map[int]bool{}
		for ch := true; ch; {
			ch = false
			for i, f := range s.facts {
				if used[i] || !smtRelevant(f, 0) {
					continue
				}
				e2 := &smtEnc{c: s.ctx, vars: map[string]*Term{}, bv: map[string]bool{}}
				str := e2.b(f)
				share := false
				for v := range e2.vars {
					if _, ok := e.vars[v]; ok {
						share = true
					}
				}
				for v := range e2.bv {
					if e.bv[v] {
						share = true
					}
				}
				if share && len(str) < 20000 {
					used[i] = true
					ch = true
					as = append(as, str)
					for v, t := range e2.vars {
						e.vars[v] = t
					}
					for v := range e2.bv {
						e.bv[v] = true
					}
				}
			}
		}
		var sb strings.Builder
		sb.WriteString("(set-logic ALL)\n")
		var vs []string
		for v := range e.vars {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		for _, v := range vs {
			t := e.vars[v]
			fmt.Fprintf(&sb, "(declare-const %s Int)\n", v)
			lo, hi := t.lo, t.hi
			if s.ctx.inR["a"+v[1:]] {
				if lo == nil || lo.Sign() < 0 {
					lo = big0
				}
				if hi == nil || hi.Cmp(rMinus1) > 0 {
					hi = rMinus1
				}
			}
			if lo != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", smtNum(lo), v)
			}
			if hi != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", v, smtNum(hi))
			}
		}
		for v := range e.bv {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", v)
		}
		sort.Strings(as)
		for _, a := range as {
			fmt.Fprintf(&sb, "(assert %s)\n", a)
		}
		fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", goal)
		return sb.String()
	}
	if smtSolve(enc(true)) == "unsat" {
		return 1
	}
	if smtSolve(enc(false)) == "unsat" {
		return -1
	}
	return 0
}

var noSMT bool

func smtSolve(q string) string {
	if v, ok := smtCache[q]; ok {
		return [...]string{"unknown", "sat", "unsat"}[v]
	}
	t0 := time.Now()
	smtCalls++
	res := "unknown"
	for _, cmd := range [][]string{{"z3", "-T:5", "-in"}, {"cvc5", "--tlimit=5000", "--lang=smt2"}} {
		c := exec.Command(cmd[0], cmd[1:]...)
		c.Stdin = strings.NewReader(q)
		var o bytes.Buffer
		c.Stdout = &o
		_ = c.Run()
		out := strings.TrimSpace(o.String())
		if strings.HasPrefix(out, "unsat") {
			res = "unsat"
			smtUnsat++
			break
		}
		if strings.HasPrefix(out, "sat") {
			res = "sat"
			break
		}
	}
	smtTime += time.Since(t0)
	smtCache[q] = map[string]int{"unknown": 0, "sat": 1, "unsat": 2}[res]
	return res
}

func solverStats() map[string]any {
	return map[string]any{"calls": smtCalls, "unsat": smtUnsat, "seconds": smtTime.Seconds()}
}
