// Visibility of circuit inputs.  A circuit's inputs are the frontend.Variable
// leaves of its struct; whether the proof is bound to a leaf (public), free in
// it (secret) or does not see it at all (omitted, left as a constant) is decided
// by the gnark struct tags, which the schema walk reads.  A type contract
//
//	type AggregatorCircuit
//	  public [C06,C22] TargetInst
//	  inputs [C20]
//
// is discharged from the declared types: every leaf under a public path is
// public, and no leaf of a type with an inputs clause is omitted.

package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

type typeClause struct {
	labels []string
	kind   string
	path   string
}

type TypeContract struct {
	key     string
	clauses []typeClause
}

var typeContracts []*TypeContract

type leafVis struct{ path, vis, why string }

// inputLeaves walks a circuit type as the schema walk does.
func inputLeaves(own *types.Package, t types.Type, path, vis string, depth int, out *[]leafVis) {
	if depth > 12 {
		return
	}
	if typeKey(t) == pG+"/frontend.Variable" {
		if vis == "" {
			vis = "secret"
		}
		*out = append(*out, leafVis{path: path, vis: vis})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		inputLeaves(own, u.Elem(), path, vis, depth+1, out)
	case *types.Slice:
		inputLeaves(own, u.Elem(), path, vis, depth+1, out)
	case *types.Array:
		inputLeaves(own, u.Elem(), path, vis, depth+1, out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := f.Name()
			if path != "" {
				p = path + "." + p
			}
			tag, ok := reflect.StructTag(u.Tag(i)).Lookup("gnark")
			v := vis
			if ok && tag == "-" {
				v = "omitted"
			} else if ok && tag != "" && vis != "omitted" {
				opts := ""
				if j := strings.Index(tag, ","); j >= 0 {
					opts = tag[j+1:]
				}
				for _, o := range strings.Split(strings.TrimSpace(opts), ",") {
					if o == "secret" {
						v = "secret"
						break
					}
					if o == "public" {
						v = "public"
					}
				}
			}
			if !f.Exported() {
				v = "omitted"
			}
			if v == "omitted" && vis != "omitted" && f.Pkg() != own {
				continue // bookkeeping of a library type
			}
			inputLeaves(own, f.Type(), p, v, depth+1, out)
		}
	}
}

func under(path, root string) bool {
	return path == root || strings.HasPrefix(path, root+".")
}

func (v *Verifier) visibility(prop string) {
	for _, tc := range typeContracts {
		for _, cl := range tc.clauses {
			has := false
			for _, l := range cl.labels {
				has = has || l == prop
			}
			if !has {
				continue
			}
			r := OblRes{Func: tc.key, Kind: "type", Labels: cl.labels, Src: strings.TrimSpace(cl.kind + " " + cl.path), OK: true}
			tn, _ := v.pkg.Pkg.Scope().Lookup(tc.key).(*types.TypeName)
			if tn == nil {
				r.OK, r.Detail = false, "no such type"
				v.add(r)
				continue
			}
			var ls []leafVis
			inputLeaves(v.pkg.Pkg, tn.Type(), "", "", 0, &ls)
			sort.Slice(ls, func(i, j int) bool { return ls[i].path < ls[j].path })
			n := 0
			for _, l := range ls {
				switch cl.kind {
				case "public":
					if !under(l.path, cl.path) {
						continue
					}
					n++
					if l.vis != "public" {
						r.OK = false
						r.Detail = fmt.Sprintf("%s.%s is %s: the proof is not bound to it", tc.key, l.path, l.vis)
					}
				case "inputs":
					n++
					if l.vis == "omitted" {
						r.OK = false
						r.Detail = fmt.Sprintf("%s.%s is not an input of the circuit: its value is compiled in as a constant", tc.key, l.path)
					}
				}
			}
			if n == 0 {
				r.OK, r.Detail = false, "no circuit input there"
			}
			v.add(r)
		}
	}
}

func init() {
	for _, p := range []string{"C06", "C13", "C20", "C22"} {
		p := p
		extraChecks[p] = append(extraChecks[p], func(v *Verifier) { v.visibility(p) })
	}
}
