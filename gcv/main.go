package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile, Dir: dir}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 || len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("loading %s: %v", dir, pkgs[0].Errors)
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	v := &Verifier{prog: prog, pkg: ps[0], globals: map[*ssa.Global]int{}, regs: map[string]bool{}, ntypes: map[string]types.Type{},
		funcs: map[string]*ssa.Function{}, applied: map[string]int{}, inlined: map[string]int{}, notes: map[string]bool{}, disable: map[string]bool{}, start: time.Now()}
	v.opaque = types.NewPointer(types.NewStruct(nil, nil))
	v.apiType = types.NewPointer(types.NewStruct([]*types.Var{types.NewVar(0, nil, "api", types.Typ[types.Int])}, nil))
	// functions and methods of the package
	for _, m := range ps[0].Members {
		switch x := m.(type) {
		case *ssa.Function:
			v.funcs[funcKey(x)] = x
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						v.funcs[funcKey(f)] = f
					}
				}
			}
		}
	}
	v.instances()
	st := newState()
	for _, m := range ps[0].Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			p := st.alloc(t, zeroVal(t))
			v.globals[g] = p.Obj
		}
	}
	v.init = st
	ex := v.newExec(Complete)
	msg, _ := catchSpec(func() {
		outs := ex.runFn(st, ps[0].Func("init"), nil, nil)
		if len(outs) != 1 || outs[0].panic {
			unsup("package initialisation does not complete normally")
		}
		v.init = outs[0].st
	})
	if msg != "" {
		return nil, fmt.Errorf("package initialisation: %s", msg)
	}
	v.init.events = nil
	var fns []*ssa.Function
	for _, m := range ps[0].Members {
		if f, ok := m.(*ssa.Function); ok {
			fns = append(fns, f)
		}
	}
	for _, f := range v.funcs {
		if f.Signature.Recv() != nil {
			fns = append(fns, f)
		}
	}
	v.dirty = dirtyGlobals(ps[0], fns)
	v.applied, v.inlined = map[string]int{}, map[string]int{}
	return v, nil
}

type report struct {
	Property  string                 `json:"property"`
	Results   []OblRes               `json:"results"`
	Unsup     []OblRes               `json:"unsupported"`
	Verified  []string               `json:"verified"`
	Applied   map[string]int         `json:"applied"`
	Inlined   map[string]int         `json:"inlined"`
	Notes     []string               `json:"notes"`
	Loops     map[string]string      `json:"loops"`
	Trusted   map[string]int         `json:"trusted"`
	Solver    map[string]interface{} `json:"solver"`
	Seconds   float64                `json:"seconds"`
	Functions map[string]string      `json:"functions"`
}

func main() {
	repo := flag.String("repo", "/repo", "package directory")
	cdir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("property", "", "verify the contracts that carry this label")
	fnames := flag.String("func", "", "verify these functions (comma separated)")
	dump := flag.String("ssa", "", "print the SSA of a function")
	out := flag.String("o", "", "write the report here")
	verbose := flag.Bool("v", false, "print every obligation")
	limit := flag.Duration("limit", 0, "time limit")
	list := flag.Bool("list", false, "list functions")
	check := flag.String("check", "", "run the check of a property (evidence, replay, verdict)")
	verif := flag.String("verif", "/verif", "framework directory, for -check")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	debug.SetGCPercent(400)
	if *check != "" {
		if err := loadContracts(*cdir); err != nil {
			fmt.Fprintln(os.Stderr, "gcv:", err)
			os.Exit(3)
		}
		c := checkCfg{prop: *check, repo: *repo, verif: *verif, tier: os.Getenv("VERIF_TIER"), start: t0, seed: 1}
		if c.tier != "thorough" {
			c.tier = "quick"
		}
		if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
			c.seed = n
		}
		lim := *limit
		if lim == 0 {
			lim = 6 * time.Minute
		}
		os.Exit(runCheck(c, *cdir, lim))
	}
	v, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gcv:", err)
		os.Exit(3)
	}
	v.verbose = *verbose
	v.limit = *limit
	if *list {
		var ks []string
		for k := range v.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := ""
			if contracts[k] != nil {
				c = "contract"
			}
			fmt.Println(k, c)
		}
		return
	}
	if *dump != "" {
		if f := v.funcs[*dump]; f != nil {
			f.WriteTo(os.Stdout)
		}
		return
	}
	if err := loadContracts(*cdir); err != nil {
		fmt.Fprintln(os.Stderr, "gcv:", err)
		os.Exit(3)
	}
	var keys []string
	if *fnames != "" {
		keys = strings.Split(*fnames, ",")
	} else {
		for _, k := range contractOrder {
			if *prop == "" || contracts[k].allLabels()[*prop] {
				keys = append(keys, k)
			}
		}
	}
	for _, k := range keys {
		v.Verify(k)
	}
	if *prop != "" {
		v.extra(*prop)
	}
	rep := report{Property: *prop, Results: v.results, Unsup: v.unsup, Verified: v.verified, Applied: v.applied, Inlined: v.inlined, Loops: loopsSummarised,
		Trusted: trustedUsed, Seconds: time.Since(t0).Seconds(), Notes: sortedKeys(v.notes), Functions: map[string]string{}}
	rep.Solver = solverStats()
	for k, f := range v.funcs {
		rep.Functions[k] = filepath.Base(v.prog.Fset.Position(f.Pos()).Filename)
	}
	bad := 0
	for _, r := range v.results {
		if !r.OK && carries(r, *prop) {
			bad++
		}
	}
	unsupN := 0
	for _, r := range v.unsup {
		if carries(r, *prop) {
			unsupN++
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "gcv:", err)
			os.Exit(3)
		}
	}
	fmt.Printf("gcv: %d obligations, %d failed, %d not decidable by the engine, %d functions verified, %.1fs\n", len(v.results), bad, unsupN, len(v.verified), time.Since(t0).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
	if unsupN > 0 {
		os.Exit(2)
	}
}

// carries: the obligation belongs to the property ("" = every one).
func carries(r OblRes, prop string) bool {
	if prop == "" {
		return true
	}
	for _, l := range r.Labels {
		if l == prop {
			return true
		}
	}
	return false
}

// instances replaces the generic functions of the package by their instances
// at BN254 (base field, scalar field): the methods of every generic struct
// type, and the package functions they reach.
func (v *Verifier) instances() {
	var targs []types.Type
	for _, imp := range v.pkg.Pkg.Imports() {
		if strings.HasSuffix(imp.Path(), "std/math/emulated/emparams") {
			for _, n := range []string{"BN254Fp", "BN254Fr"} {
				if o := imp.Scope().Lookup(n); o != nil {
					targs = append(targs, o.Type())
				}
			}
		}
	}
	if len(targs) != 2 {
		return
	}
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Origin() == nil || f.Origin().Pkg != v.pkg {
			return
		}
		seen[f] = true
		v.funcs[funcKey(f)] = f
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					add(c.Common().StaticCallee())
				}
			}
		}
	}
	for _, m := range v.pkg.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := types.Unalias(t.Type()).(*types.Named)
		if !ok || n.TypeParams().Len() == 0 || n.TypeParams().Len() > 2 {
			continue
		}
		inst, err := types.Instantiate(nil, n, targs[:n.TypeParams().Len()], false)
		if err != nil {
			continue
		}
		ms := v.prog.MethodSets.MethodSet(types.NewPointer(inst))
		for i := 0; i < ms.Len(); i++ {
			add(v.prog.MethodValue(ms.At(i)))
		}
	}
}
