// Registration of the package's hints (C10): the solver can only run a hint
// that has been registered when a package is initialised.  Every function of
// the package that has a hint's signature and is used as a value (handed to
// NewHint, directly or through helpers and tables) must have been registered
// once package initialisation has run.

package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func isHintSig(s *types.Signature) bool {
	if s.Recv() != nil || s.Params().Len() != 3 || s.Results().Len() != 1 || s.Variadic() {
		return false
	}
	return s.Params().At(0).Type().String() == "*math/big.Int" && s.Params().At(1).Type().String() == "[]*math/big.Int" &&
		s.Params().At(2).Type().String() == "[]*math/big.Int" && s.Results().At(0).Type().String() == "error"
}

func (v *Verifier) hintRegistration() {
	used := map[*ssa.Function]string{}
	for f := range ssautil.AllFunctions(v.prog) {
		if f.Pkg != v.pkg && (f.Parent() == nil || f.Parent().Pkg != v.pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok || h.Pkg != v.pkg || !isHintSig(h.Signature) {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() && c.Common().Value == h {
						continue // a direct call
					}
					if used[h] == "" || f.Name() < used[h] {
						used[h] = f.Name()
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range used {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	for _, f := range fs {
		r := OblRes{Func: f.Name(), Kind: "registered", Labels: []string{"C10"}, Src: "the hint is registered with the solver at initialisation", OK: v.regs[f.Name()]}
		if !r.OK {
			r.Detail = "used by " + used[f] + ", but no RegisterHint call of the package initialisation is given it"
		}
		v.add(r)
	}
}

func init() {
	extraChecks["C10"] = append(extraChecks["C10"], (*Verifier).hintRegistration)
}
