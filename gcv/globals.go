package main

// Package variables hold their initial value while a contract is verified.
// That is right for a variable nothing but the package initialisation can
// change; dirtyGlobals finds the others (a conservative flow-insensitive
// analysis over every function of the package), and reading one of those is
// outside what the verifier decides.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dirtyGlobals(pkg *ssa.Package, funcs []*ssa.Function) map[*ssa.Global]string {
	dirty := map[*ssa.Global]string{}
	type set map[*ssa.Global]bool
	rooted := map[ssa.Value]set{} // what a value may be part of, or point into
	rets := map[*ssa.Function]set{}
	changed := true
	add := func(v ssa.Value, s set) {
		if len(s) == 0 || !mayRefer(v.Type(), 0) {
			return
		}
		r := rooted[v]
		if r == nil {
			r = set{}
			rooted[v] = r
		}
		for g := range s {
			if !r[g] {
				r[g] = true
				changed = true
			}
		}
	}
	of := func(v ssa.Value) set {
		if g, ok := v.(*ssa.Global); ok {
			if g.Pkg == pkg {
				return set{g: true}
			}
			return nil
		}
		return rooted[v]
	}
	mark := func(v ssa.Value, why string) {
		for g := range of(v) {
			if _, ok := dirty[g]; !ok {
				dirty[g] = why
			}
		}
	}
	var all []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		all = append(all, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, f := range funcs {
		walk(f)
	}
	for changed {
		changed = false
		for _, f := range all {
			init := f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
			mk := func(v ssa.Value, in ssa.Instruction) {
				if !init {
					mark(v, f.String())
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						mk(x.Addr, in)
						// kept inside something else: follow the container
						if s := of(x.Val); len(s) > 0 && mayRefer(x.Val.Type(), 0) {
							root := x.Addr
							for root != nil {
								add(root, s)
								switch y := root.(type) {
								case *ssa.FieldAddr:
									root = y.X
								case *ssa.IndexAddr:
									root = y.X
								default:
									root = nil
								}
							}
						}
					case *ssa.MapUpdate:
						mk(x.Map, in)
						add(x.Map, of(x.Value))
					case *ssa.FieldAddr:
						add(x, of(x.X))
					case *ssa.IndexAddr:
						add(x, of(x.X))
					case *ssa.Field:
						add(x, of(x.X))
					case *ssa.Index:
						add(x, of(x.X))
					case *ssa.Lookup:
						add(x, of(x.X))
					case *ssa.Extract:
						add(x, of(x.Tuple))
					case *ssa.Slice:
						add(x, of(x.X))
					case *ssa.UnOp:
						add(x, of(x.X))
					case *ssa.ChangeType:
						add(x, of(x.X))
					case *ssa.Convert:
						add(x, of(x.X))
					case *ssa.ChangeInterface:
						add(x, of(x.X))
					case *ssa.MakeInterface:
						add(x, of(x.X))
					case *ssa.TypeAssert:
						add(x, of(x.X))
					case *ssa.SliceToArrayPointer:
						add(x, of(x.X))
					case *ssa.Range:
						add(x, of(x.X))
					case *ssa.Next:
						add(x, of(x.Iter))
					case *ssa.Phi:
						for _, e := range x.Edges {
							add(x, of(e))
						}
					case *ssa.MakeClosure:
						fn, _ := x.Fn.(*ssa.Function)
						for i, bnd := range x.Bindings {
							if fn != nil && i < len(fn.FreeVars) {
								add(fn.FreeVars[i], of(bnd))
								// a captured cell may be given a global by the closure
								add(bnd, of(fn.FreeVars[i]))
							}
							add(x, of(bnd))
						}
					case *ssa.Return:
						for _, r := range x.Results {
							if s := of(r); len(s) > 0 && mayRefer(r.Type(), 0) {
								if rets[f] == nil {
									rets[f] = set{}
								}
								for g := range s {
									if !rets[f][g] {
										rets[f][g] = true
										changed = true
									}
								}
							}
						}
					case *ssa.Send:
						mk(x.X, in)
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c := ci.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							if bi.Name() == "append" {
								// writes only into spare capacity, and the
								// result may share the elements
								if _, load := c.Args[0].(*ssa.UnOp); !load {
									mk(c.Args[0], in)
								}
								if v, ok := in.(ssa.Value); ok {
									for _, a := range c.Args {
										add(v, of(a))
									}
								}
							} else {
								mk(c.Args[0], in)
							}
						}
						continue
					}
					callee := c.StaticCallee()
					if callee != nil && callee.Blocks != nil && callee.Pkg == pkg {
						for i, p := range callee.Params {
							if i < len(c.Args) {
								add(p, of(c.Args[i]))
							}
						}
						if v, ok := in.(ssa.Value); ok {
							add(v, rets[callee])
						}
						continue
					}
					// a call of a value, through an interface, or out of the package
					if callee == nil && !c.IsInvoke() {
						if v, ok := in.(ssa.Value); ok {
							add(v, of(c.Value))
						}
						for _, a := range c.Args {
							if mayRefer(a.Type(), 0) {
								mk(a, in)
							}
						}
						continue
					}
					var recv ssa.Value
					var args []ssa.Value
					var pk, name string
					sig := c.Signature()
					if c.IsInvoke() {
						recv, args, name = c.Value, c.Args, c.Method.Name()
						if c.Method.Pkg() != nil {
							pk = c.Method.Pkg().Path()
						}
					} else {
						args, name = c.Args, callee.Name()
						if callee.Pkg != nil {
							pk = callee.Pkg.Pkg.Path()
						} else if o := callee.Object(); o != nil && o.Pkg() != nil {
							pk = o.Pkg().Path()
						}
						if sig.Recv() != nil && len(args) > 0 {
							recv, args = args[0], args[1:]
						}
					}
					if recv != nil && len(of(recv)) > 0 && !readOnlyMethod(sig, recv.Type(), name) {
						mk(recv, in)
					}
					for i, a := range args {
						if !mayRefer(a.Type(), 0) || len(of(a)) == 0 {
							continue
						}
						switch strings.SplitN(pk, "/", 2)[0] {
						case "sort", "slices", "maps", "encoding", "io", "sync", "json", "crypto", "container", "unsafe", "reflect", "bufio", "os":
							mk(a, in)
						case "math":
							if (name == "DivMod" || name == "QuoRem") && i == 2 || name == "GCD" && i < 2 || name == "FillBytes" {
								mk(a, in)
							}
						}
					}
					// results that are (part of) an argument: x.Set(y) returns x
					if v, ok := in.(ssa.Value); ok && recv != nil {
						add(v, of(recv))
					}
				}
			}
		}
	}
	return dirty
}

// readOnlyMethod: the method is known not to change its receiver.
func readOnlyMethod(sig *types.Signature, recv types.Type, name string) bool {
	if _, ok := recv.Underlying().(*types.Pointer); !ok {
		if _, ok := recv.Underlying().(*types.Interface); !ok {
			return true
		}
		return false
	}
	if strings.HasSuffix(recv.String(), "regexp.Regexp") {
		return name != "Longest" && !strings.HasPrefix(name, "Unmarshal")
	}
	switch name {
	case "String", "Text", "Bytes", "Bit", "BitLen", "Cmp", "CmpAbs", "Sign", "Int64", "Uint64", "IsInt64", "IsUint64",
		"BigInt", "ToBigIntRegular", "Equal", "IsZero", "IsOne", "IsOnCurve", "IsInfinity", "Marshal", "RawBytes", "ProbablyPrime",
		"Append", "Format", "TrailingZeroBits", "Bits", "FillBytes", "IsEqual", "NotEqual", "Error", "Is", "Unwrap":
		return true
	}
	return false
}

// mayRefer: a value of the type can give access to memory.
func mayRefer(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return mayRefer(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayRefer(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mayRefer(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}
