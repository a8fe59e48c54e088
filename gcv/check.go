package main

// The check driver: proves the obligations of one property, replays failures
// on the real code, writes the evidence file and decides the exit status.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type checkCfg struct {
	prop, repo, verif, tier string
	seed                    int
	start                   time.Time
}

type known struct{ prop, id, text string }

// knownFindings reads lines "finding property=<id> at=<obligation> <text>".
func knownFindings(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile("^finding property=(\\S+) at=`([^`]*)` (.*)$")
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r = append(r, known{m[1], m[2], m[3]})
		}
	}
	return r
}

// id names an obligation independently of lines and of the path that failed.
func (r OblRes) id() string { return r.Func + ": " + r.Src }

type replayRes struct {
	ran, failed bool
	cases       int
	out         string
	first       string
	secs        float64
	note        string
}

// replay runs the in-package harness of the property against /repo's tree.
func replay(c checkCfg, budget time.Duration) replayRes {
	t0 := time.Now()
	var rr replayRes
	src := filepath.Join(c.verif, "replay", strings.ToLower(c.prop)+"_test.go")
	if _, err := os.Stat(src); err != nil {
		rr.note = "no replay harness for " + c.prop
		return rr
	}
	tmp, err := os.MkdirTemp("", "gcv-replay-")
	if err != nil {
		rr.note = err.Error()
		return rr
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	olds, _ := filepath.Glob(filepath.Join(c.repo, "*_test.go"))
	for _, f := range olds {
		rep[f] = ""
	}
	commons, _ := filepath.Glob(filepath.Join(c.verif, "replay", "common*_test.go"))
	b0, _ := os.ReadFile(src)
	for _, f := range commons {
		// optional common files are named in the harness: "//uses: name"
		n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "common_"), "_test.go")
		if filepath.Base(f) != "common_test.go" && !bytes.Contains(b0, []byte("//uses: "+n+"\n")) {
			continue
		}
		rep[filepath.Join(c.repo, "zz_verif_"+filepath.Base(f))] = f
	}
	rep[filepath.Join(c.repo, "zz_verif_"+filepath.Base(src))] = src
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		rr.note = err.Error()
		return rr
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(budget.Seconds())), "-run", "^TestVerif"+c.prop+"$", "-v", ".")
	cmd.Dir = c.repo
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(c.seed), "VERIF_TIER="+c.tier, fmt.Sprintf("VERIF_BUDGET=%d", int(budget.Seconds())-30))
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	runErr := cmd.Run()
	rr.out = o.String()
	rr.secs = time.Since(t0).Seconds()
	for _, l := range strings.Split(rr.out, "\n") {
		if i := strings.Index(l, "REPLAY-CASES "); i >= 0 {
			n, _ := strconv.Atoi(strings.TrimSpace(l[i+13:]))
			rr.cases += n
		}
		if i := strings.Index(l, "REPLAY-FAIL "); i >= 0 {
			rr.failed = true
			if rr.first == "" {
				rr.first = l[i+12:]
			}
		}
	}
	rr.ran = rr.failed || strings.Contains(rr.out, "REPLAY-DONE")
	if !rr.ran {
		rr.note = "the harness gave no verdict: " + trunc(strings.ReplaceAll(lastLines(rr.out, 6), "\n", " / "), 500)
		if runErr != nil {
			rr.note += " (" + runErr.Error() + ")"
		}
	}
	return rr
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func runCheck(c checkCfg, cdir string, limit time.Duration) int {
	evid := filepath.Join(c.verif, "evidence")
	_ = os.MkdirAll(evid, 0o755)
	var results, unsupd []OblRes
	var v *Verifier
	loadNote := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				loadNote = fmt.Sprintf("engine: %v", r)
				fmt.Fprintln(os.Stderr, "gcv:", loadNote)
				if os.Getenv("GCV_TRACE") != "" {
					panic(r)
				}
			}
		}()
		var err error
		if v, err = load(c.repo); err != nil {
			loadNote = err.Error()
			return
		}
		v.limit = limit
		for _, k := range contractOrder {
			if contracts[k].allLabels()[c.prop] {
				v.Verify(k)
			}
		}
		v.extra(c.prop)
	}()
	if v != nil {
		for _, r := range v.results {
			if carries(r, c.prop) {
				results = append(results, r)
			}
		}
		for _, r := range v.unsup {
			if carries(r, c.prop) {
				unsupd = append(unsupd, r)
			}
		}
	}
	if loadNote != "" {
		unsupd = append(unsupd, OblRes{Func: "package", Kind: "unsupported", Labels: []string{c.prop}, Detail: loadNote})
	}
	if len(results) == 0 && len(unsupd) == 0 {
		unsupd = append(unsupd, OblRes{Func: "package", Kind: "unsupported", Labels: []string{c.prop}, Detail: "no obligation was generated for the property"})
	}
	kf := knownFindings(filepath.Join(c.verif, "known_findings.txt"))
	var failed []OblRes
	knownHit := map[string]string{}
	proved := 0
	for _, r := range results {
		if r.OK {
			proved++
			continue
		}
		hit := false
		for _, k := range kf {
			if k.prop == c.prop && (k.id == r.id() || v != nil && v.movedFinding(k.id, r.id())) {
				knownHit[k.id] = k.text
				hit = true
			}
		}
		if !hit {
			failed = append(failed, r)
		}
	}
	for _, id := range sortedKeysS(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.prop, knownHit[id], id)
	}
	var rr replayRes
	budget := 820*time.Second - time.Since(c.start)
	if budget > 420*time.Second && c.tier == "quick" {
		budget = 420 * time.Second
	}
	if len(failed) > 0 || len(unsupd) > 0 || c.tier == "thorough" {
		rr = replay(c, budget)
	}
	// verdict
	code := 0
	if rr.failed || len(failed) > 0 {
		code = 1
	} else if len(unsupd) > 0 && !rr.ran {
		// neither proved nor checked by the stand-in
		code = 1
	}
	replayPath := ""
	if code == 1 {
		dir := filepath.Join(evid, "replays")
		_ = os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, c.prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", c.prop)
		for _, r := range failed {
			fmt.Fprintf(&b, "failed obligation: %s %s [%s] case {%s}\n  contract: %s\n  verifier: %s\n\n", r.Func, r.Kind, strings.Join(r.Labels, ","), r.Case, r.Src, r.Detail)
		}
		for _, r := range unsupd {
			fmt.Fprintf(&b, "not decided by the verifier: %s (%s) {%s}: %s\n", r.Func, r.Src, r.Case, r.Detail)
		}
		if rr.failed {
			fmt.Fprintf(&b, "\nfailing input on the real code: %s\n\nre-run: cd %s && /verif/check.sh %s (the harness is /verif/replay/%s_test.go, VERIF_SEED=%d)\n\nharness output:\n%s\n", rr.first, c.repo, c.prop, strings.ToLower(c.prop), c.seed, lastLines(rr.out, 200))
		} else if rr.ran {
			fmt.Fprintf(&b, "\nno failing input found by the replay harness (%d cases, seed %d)\n", rr.cases, c.seed)
		} else {
			fmt.Fprintf(&b, "\nreplay: %s\n", rr.note)
		}
		_ = os.WriteFile(replayPath, []byte(b.String()), 0o644)
	}
	// evidence
	cov := map[string]any{
		"obligations": len(results) + len(unsupd),
		"discharged":  proved,
		"checker_cmd": fmt.Sprintf("/verif/bin/gcv -repo %s -contracts %s -property %s -v", c.repo, cdir, c.prop),
	}
	backs := map[string]int{}
	fns := map[string]int{}
	for _, r := range results {
		if r.OK {
			fns[r.Func]++
			b := r.Back
			if b == "" {
				b = "gcv canonical forms (field/group/integer normalisation)"
			}
			backs[b]++
		}
	}
	cov["obligations_per_function"] = fns
	cov["back_ends"] = backs
	if v != nil {
		cov["functions_under_contract"] = v.verified
		cov["contracts_used_at_calls"] = v.applied
		cov["functions_verified_inline_in_callers"] = v.inlined
		cov["solver"] = solverStats()
		cov["loops"] = loopsSummarised
		cov["notes"] = sortedKeys(v.notes)
		cov["package_functions_without_contract"] = v.uncontracted()
	}
	var tb []string
	for k := range trustedUsed {
		tb = append(tb, k)
	}
	sort.Strings(tb)
	tb = append(tb, "gcv itself (SSA execution, canonicalisation, contract language) and golang.org/x/tools/go/ssa",
		"z3 4.8.12 / cvc5 1.1.2 where the solver counter is non-zero")
	cov["trusted_base"] = tb
	if len(unsupd) > 0 {
		var l []string
		for _, r := range unsupd {
			l = append(l, fmt.Sprintf("%s {%s}: %s", r.Func, r.Case, r.Detail))
		}
		cov["bounded_stand_ins"] = l
		cov["bounded_note"] = "these obligations were not decided by proof in this run; the replay harness explored them with a bound, and they are not counted as discharged"
	}
	if len(knownHit) > 0 {
		cov["known_findings"] = knownHit
	}
	if rr.ran || rr.note != "" {
		cov["replay"] = map[string]any{"ran": rr.ran, "cases": rr.cases, "failed": rr.failed, "seconds": rr.secs, "note": rr.note}
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof", "coverage": cov,
		"assumptions": assumptions(c.prop), "wall_s": time.Since(c.start).Seconds(), "violations": code,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evid, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "gcv:", err)
		return 3
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d failed, %d by bounded stand-in, %d known; %.1fs\n", c.prop, len(results)+len(unsupd), proved, len(failed), len(unsupd), len(knownHit), time.Since(c.start).Seconds())
	if code == 1 {
		for _, r := range failed {
			fmt.Printf("  failed: %s {%s} %s\n", r.id(), r.Case, trunc(r.Detail, 300))
		}
		for _, r := range unsupd {
			fmt.Printf("  undecided: %s {%s} %s\n", r.Func, r.Case, trunc(r.Detail, 300))
		}
		if rr.failed {
			fmt.Printf("  replay: %s\n", trunc(rr.first, 400))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, replayPath)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, replayPath)
		}
	}
	return code
}

// movedFinding: the finding was recorded for a function that no longer exists
// (renamed, or merged into its callers); the same defect is then the same
// finding wherever its code went.
func (v *Verifier) movedFinding(id, got string) bool {
	f, what, ok := strings.Cut(id, ": ")
	_, gotWhat, ok2 := strings.Cut(got, ": ")
	return ok && ok2 && what == gotWhat && v.funcs[strings.SplitN(f, "#", 2)[0]] == nil
}

func sortedKeysS(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// uncontracted lists the functions of the package that have no contract.
func (v *Verifier) uncontracted() []string {
	var r []string
	for k := range v.funcs {
		if contracts[k] == nil && k != "init" && !strings.HasPrefix(k, "init#") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func assumptions(prop string) []string {
	return []string{
		"gnark, gnark-crypto, go-ethereum and the Go standard library behave as modelled by gcv's intrinsics (listed in trusted_base)",
		"constraints mean what the gnark test engine and a complete proving system give them: an accepted witness satisfies every assertion made through the API; hint outputs are arbitrary unless constrained",
		"SHA-256 and Keccak-256 are uninterpreted functions of the byte string; BN254 G1 is an abelian group of order r with exact library arithmetic",
		"Go int arithmetic on lengths and indices is treated as mathematical within 31 bits; math/big integers are exact",
		"memory is not exhausted; no data races (the code is sequential)",
	}
}

// extra runs the checks of a property that are not attached to one contract.
func (v *Verifier) extra(prop string) {
	for _, f := range extraChecks[prop] {
		f(v)
	}
}

var extraChecks = map[string][]func(*Verifier){}
