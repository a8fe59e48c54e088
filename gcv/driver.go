package main

// Contracts assumed on the entry points a command-line driver uses: compile,
// set up, assign, prove, verify.  Every one of them may fail.  A result
// records where it came from, so that a contract can say what was verified.

import (
	"go/ast"
	"go/types"
	"math/big"
)

// prov is the provenance record behind a driver object.
type prov struct {
	kind                string
	circuit             Iface
	field               *big.Int
	snap                *State
	ccs, pk, wit, setup *prov
}

var provSeq []*prov

func provVal(st *State, p *prov) Iface {
	return Iface{types.NewPointer(types.NewStruct(nil, nil)), st.alloc(nil, Opq{p.kind, map[string]Val{"prov": p}})}
}

func provOf(st *State, v Val, kind string) *prov {
	f, ok := v.(Iface)
	if !ok {
		unsup("driver object of %T", v)
	}
	if f.T == nil {
		return nil
	}
	p, ok := f.V.(Ptr)
	if !ok || p.Obj == 0 {
		unsup("driver object %T", f.V)
	}
	o, ok := st.load(p).(Opq)
	if !ok {
		unsup("driver object")
	}
	r, _ := o.D["prov"].(*prov)
	if r == nil || r.kind != kind {
		return nil
	}
	return r
}

// fallible: the call succeeds with ok's results or fails with nil results and
// an error.
func fallible(ex *Exec, st *State, ci *CallInfo, n int, ok func(s *State) []Val) []Outcome {
	s2 := st.clone()
	var nils Tuple
	for i := 0; i < n; i++ {
		nils = append(nils, Iface{})
	}
	tup := func(t Tuple) Val {
		if len(t) == 1 {
			return t[0]
		}
		return t
	}
	s2.trace = append(s2.trace, ci.name+" fails at "+ex.pos(ci.pos))
	fail := Outcome{st: s2, ret: tup(append(nils, ex.errVal(ci.name)))}
	vs := ok(st)
	if vs == nil && n > 0 {
		return []Outcome{fail}
	}
	return []Outcome{{st: st, ret: tup(append(Tuple(vs), nilErr))}, fail}
}

func driverIntrinsics(def func(intr, ...string)) {
	field := func(ex *Exec, st *State, v Val) *big.Int {
		if isNilPtr(v) {
			return nil
		}
		return constK(ex.bigOf(st, v))
	}
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return fallible(ex, st, ci, 1, func(s *State) []Val {
			c, _ := args[2].(Iface)
			return []Val{provVal(s, &prov{kind: "ccs", field: field(ex, s, args[0]), circuit: c, snap: s.clone()})}
		})
	}, pG+"/frontend.Compile")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return fallible(ex, st, ci, 2, func(s *State) []Val {
			if provOf(s, args[0], "ccs") == nil {
				return nil
			}
			v := provVal(s, &prov{kind: "srs", ccs: provOf(s, args[0], "ccs")})
			w := provVal(s, &prov{kind: "srsl", ccs: provOf(s, args[0], "ccs")})
			return []Val{v, w}
		})
	}, pG+"/test/unsafekzg.NewSRS")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return fallible(ex, st, ci, 2, func(s *State) []Val {
			c := provOf(s, args[0], "ccs")
			if c == nil || provOf(s, args[1], "srs") == nil || provOf(s, args[2], "srsl") == nil {
				return nil
			}
			id := &prov{kind: "setup", ccs: c}
			return []Val{provVal(s, &prov{kind: "pk", setup: id, ccs: c}), provVal(s, &prov{kind: "vk", setup: id, ccs: c})}
		})
	}, pG+"/backend/plonk.Setup")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return fallible(ex, st, ci, 1, func(s *State) []Val {
			c, _ := args[0].(Iface)
			return []Val{provVal(s, &prov{kind: "witness", field: field(ex, s, args[1]), circuit: c, snap: s.clone()})}
		})
	}, pG+"/frontend.NewWitness")
	objMethods["witness.Public"] = func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		o, _ := st.load(args[0].(Ptr)).(Opq)
		w, _ := o.D["prov"].(*prov)
		return fallible(ex, st, &CallInfo{pos: ci.pos, name: "witness.Public"}, 1, func(s *State) []Val {
			return []Val{provVal(s, &prov{kind: "public", wit: w})}
		})
	}
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		return fallible(ex, st, ci, 1, func(s *State) []Val {
			c, k, w := provOf(s, args[0], "ccs"), provOf(s, args[1], "pk"), provOf(s, args[2], "witness")
			if c == nil || k == nil || w == nil {
				return nil
			}
			return []Val{provVal(s, &prov{kind: "proof", ccs: c, pk: k, wit: w})}
		})
	}, pG+"/backend/plonk.Prove")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		s2 := st.clone()
		s2.trace = append(s2.trace, "plonk.Verify fails at "+ex.pos(ci.pos))
		outs := []Outcome{{st: s2, ret: ex.errVal(ci.name)}}
		p, k, w := provOf(st, args[0], "proof"), provOf(st, args[1], "vk"), provOf(st, args[2], "public")
		if p == nil || k == nil || w == nil {
			return outs
		}
		st.events = append(st.events, Event{Kind: "verified", Pos: ex.pos(ci.pos), Obj: []*prov{p, k, w}})
		return append([]Outcome{{st: st, ret: nilErr}}, outs...)
	}, pG+"/backend/plonk.Verify")
	def(func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
		n, ok := st.constInt(args[0])
		if !ok {
			unsup("os.Exit of a symbolic status")
		}
		if n != 0 {
			return panics(st, "os.Exit")
		}
		return []Outcome{{st: st, panic: true, exit0: true, why: "os.Exit(0)"}}
	}, "os.Exit")
	idField := func(name string, m *big.Int) intr {
		return func(ex *Exec, st *State, args []Val, ci *CallInfo) []Outcome {
			n, ok := st.constInt(args[0])
			if !ok {
				unsup("curve of symbolic identity")
			}
			for _, p := range ex.prog.AllPackages() {
				if p.Pkg.Path() == "github.com/consensys/gnark-crypto/ecc" {
					if c, ok := p.Pkg.Scope().Lookup("BN254").(*types.Const); ok && c.Val().ExactString() == big.NewInt(n).String() {
						return one(st, ex.newBig(st, ICB(m)))
					}
				}
			}
			// another curve's field: some other number
			return one(st, ex.newBig(st, UFInt("field_"+name, big.NewInt(3), nil, IC(n))))
		}
	}
	def(idField("scalar", modR), "(github.com/consensys/gnark-crypto/ecc.ID).ScalarField")
	def(idField("base", modP), "(github.com/consensys/gnark-crypto/ecc.ID).BaseField")
	// verified(w, E): a proof made for witness assignment w was verified, with
	// the key of the set-up of the circuit it was made for, and E holds of w
	specFns["verified"] = func(e *Env, a []ast.Expr) interface{} {
		name := a[0].(*ast.Ident).Name
		var any []*Term
		for _, ev := range e.cur.events {
			if ev.Kind != "verified" {
				continue
			}
			p, k, w := ev.Obj[0], ev.Obj[1], ev.Obj[2]
			if p.ccs != p.pk.ccs || p.pk.setup != k.setup || w.wit != p.wit {
				continue
			}
			c, x := p.ccs, p.wit
			if c.field == nil || x.field == nil || c.field.Cmp(modR) != 0 || x.field.Cmp(modR) != 0 {
				continue
			}
			if c.circuit.T == nil || x.circuit.T == nil || !types.Identical(c.circuit.T, x.circuit.T) {
				continue
			}
			pt, ok := c.circuit.T.(*types.Pointer)
			if !ok {
				continue
			}
			n, ok := types.Unalias(pt.Elem()).(*types.Named)
			if !ok || n.Obj().Name() != "AggregatorCircuit" {
				continue
			}
			// same shape
			cs, ok1 := c.snap.load(c.circuit.V.(Ptr)).(Struct)
			xs, ok2 := x.snap.load(x.circuit.V.(Ptr)).(Struct)
			if !ok1 || !ok2 {
				continue
			}
			same := true
			for i := range cs.F {
				s1, ok1 := cs.F[i].(Slice)
				s2, ok2 := xs.F[i].(Slice)
				if ok1 && ok2 && canonT(s1.Len) != canonT(s2.Len) {
					same = false
				}
			}
			if !same {
				continue
			}
			e2 := *e
			e2.vars = map[string]interface{}{name: mkTyped(x.circuit.V, x.circuit.T)}
			e2.cur, e2.post, e2.pre = x.snap, x.snap, x.snap
			any = append(any, e2.Bool(a[1]))
		}
		if len(any) == 0 {
			return FalseT
		}
		return BOr(any...)
	}
}

func constK(t *Term) *big.Int {
	if t.IsC() {
		return t.K
	}
	return nil
}
