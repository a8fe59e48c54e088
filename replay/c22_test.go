//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/consensys/gnark/frontend"
)

// C22: the real driver, built with stand-ins for the dependency's compile,
// set-up, proving and verification functions (a patched copy of the module in
// a scratch directory), run with each step failing in turn and with none failing.

const vStubHead = `
import (
	"errors"
	"fmt"
	"os"
)

func vFails(step string) error {
	if os.Getenv("VSTUB_FAIL") == step {
		return errors.New("stub: " + step + " fails")
	}
	return nil
}

func vLog(f string, a ...any) {
	h, err := os.OpenFile(os.Getenv("VSTUB_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(h, f+"\n", a...)
	h.Close()
}
`

func vDriver(tmp string) (string, error) {
	out, err := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/consensys/gnark").Output()
	if err != nil {
		return "", err
	}
	dir := filepath.Join(tmp, "gnark")
	if o, err := exec.Command("cp", "-r", strings.TrimSpace(string(out)), dir).CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, o)
	}
	if o, err := exec.Command("chmod", "-R", "u+w", dir).CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, o)
	}
	// name: the function is renamed and replaced by the stand-in
	stub := func(file, pkg, code string, names ...string) error {
		b, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			return err
		}
		s := string(b)
		for _, n := range names {
			if strings.Count(s, "\nfunc "+n+"(") != 1 {
				return fmt.Errorf("no function %s in %s", n, file)
			}
			i := strings.LastIndex(n, " ") + 1
			s = strings.Replace(s, "\nfunc "+n+"(", "\nfunc "+n[:i]+"vReal"+n[i:]+"(", 1)
		}
		if err := os.WriteFile(filepath.Join(dir, file), []byte(s), 0o644); err != nil {
			return err
		}
		stubf := filepath.Join(dir, filepath.Dir(file), "zz_stub_"+filepath.Base(file))
		imports := ""
		if i := strings.Index(code, "---\n"); i >= 0 {
			imports, code = code[:i], code[i+4:]
		}
		if err := os.WriteFile(stubf, []byte("package "+pkg+"\n"+imports+vStubHead+code), 0o644); err != nil {
			return err
		}
		return nil
	}
	if err := stub("backend/plonk/plonk.go", "plonk", `
import (
	"github.com/consensys/gnark-crypto/kzg"
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
)
---
type vpk struct{ ProvingKey; id int; ccs any }
type vvk struct{ VerifyingKey; id int }
type vproof struct{ Proof; id int; w string; pub string; ok bool }

var vseq int

func Setup(ccs constraint.ConstraintSystem, srs, srsLagrange kzg.SRS) (ProvingKey, VerifyingKey, error) {
	if err := vFails("setup"); err != nil {
		return nil, nil, err
	}
	vseq++
	return &vpk{id: vseq, ccs: ccs}, &vvk{id: vseq}, nil
}

func Prove(ccs constraint.ConstraintSystem, pk ProvingKey, w witness.Witness, opts ...backend.ProverOption) (Proof, error) {
	if err := vFails("prove"); err != nil {
		return nil, err
	}
	p, ok := pk.(*vpk)
	if !ok || w == nil {
		return &vproof{}, nil
	}
	pub, err := w.VRealPublic()
	if err != nil {
		return nil, err
	}
	return &vproof{id: p.id, w: fmt.Sprint(w.Vector()), pub: fmt.Sprint(pub.Vector()), ok: p.ccs == any(ccs) && ccs != nil}, nil
}

func Verify(proof Proof, vk VerifyingKey, w witness.Witness, opts ...backend.VerifierOption) error {
	if err := vFails("verify"); err != nil {
		return err
	}
	p, ok := proof.(*vproof)
	k, ok2 := vk.(*vvk)
	if !ok || !ok2 || !p.ok || p.id != k.id || w == nil || fmt.Sprint(w.Vector()) != p.pub {
		return errors.New("stub: the proof does not verify")
	}
	vLog("PUBLIC %s", p.pub)
	vLog("VERIFIED %s", p.w)
	return nil
}
`, "Setup", "Prove", "Verify"); err != nil {
		return "", err
	}
	if err := stub("frontend/compile.go", "frontend", `
import (
	"math/big"

	"github.com/consensys/gnark/constraint"
)
---
type vccs struct{ constraint.ConstraintSystem }

func Compile(field *big.Int, newBuilder NewBuilder, circuit Circuit, opts ...CompileOption) (constraint.ConstraintSystem, error) {
	if err := vFails("compile"); err != nil {
		return nil, err
	}
	vLog("COMPILED %v %T", field, circuit)
	return &vccs{}, nil
}
`, "Compile"); err != nil {
		return "", err
	}
	if err := stub("test/unsafekzg/kzgsrs.go", "unsafekzg", `
import (
	"github.com/consensys/gnark-crypto/kzg"
	"github.com/consensys/gnark/constraint"
)
---
func NewSRS(ccs constraint.ConstraintSystem, opts ...Option) (kzg.SRS, kzg.SRS, error) {
	vLog("SRS")
	if err := vFails("srs"); err != nil {
		return nil, nil, err
	}
	type s struct{ kzg.SRS }
	return &s{}, &s{}, nil
}
`, "NewSRS"); err != nil {
		return "", err
	}
	if err := stub("backend/witness/witness.go", "witness", `---
func (w *witness) Public() (Witness, error) {
	if err := vFails("public"); err != nil {
		return nil, err
	}
	return w.vRealPublic()
}

func (w *witness) VRealPublic() (Witness, error) { return w.vRealPublic() }
`, "(w *witness) Public"); err != nil {
		return "", err
	}
	// the interface gains the stand-in's extra method
	f := filepath.Join(dir, "backend/witness/witness.go")
	b, _ := os.ReadFile(f)
	if err := os.WriteFile(f, []byte(strings.Replace(string(b), "	Public() (Witness, error)\n", "	Public() (Witness, error)\n	VRealPublic() (Witness, error)\n", 1)), 0o644); err != nil {
		return "", err
	}
	if err := stub("frontend/witness.go", "frontend", `
import (
	"math/big"

	"github.com/consensys/gnark/backend/witness"
)
---
func NewWitness(assignment Circuit, field *big.Int, opts ...WitnessOption) (witness.Witness, error) {
	if os.Getenv("VSTUB_FAIL") == "witness" {
		return nil, errors.New("stub: witness fails")
	}
	return vRealNewWitness(assignment, field, opts...)
}
`, "NewWitness"); err != nil {
		return "", err
	}
	// one copy of the helpers per package
	w := filepath.Join(dir, "frontend/zz_stub_witness.go")
	b, _ = os.ReadFile(w)
	s := strings.Replace(string(b), vStubHead, "\nimport (\n\t\"errors\"\n\t\"os\"\n)\n", 1)
	if err := os.WriteFile(w, []byte(s), 0o644); err != nil {
		return "", err
	}
	mod, err := os.ReadFile("go.mod")
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile("go.sum")
	if err != nil {
		return "", err
	}
	mod = append(mod, []byte("\nreplace github.com/consensys/gnark => "+dir+"\n")...)
	if err := os.WriteFile(filepath.Join(tmp, "go.mod"), mod, 0o644); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "driver")
	if o, err := exec.Command("go", "build", "-modfile", filepath.Join(tmp, "go.mod"), "-buildvcs=false", "-o", bin, ".").CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, o)
	}
	return bin, nil
}

func TestVerifC22(t *testing.T) {
	tmp, err := os.MkdirTemp("", "verif-c22-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	bin, err := vDriver(tmp)
	if err != nil {
		t.Fatal(err) // no verdict
	}
	dec := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
	want := AggregatorCircuit{VerifyInst: []frontend.Variable{dec("10573525131658455000365299935369648652552518565632155338390913030155084554858")}}
	for _, s := range proofStr {
		want.Proof = append(want.Proof, dec(s))
	}
	for _, s := range auxStr {
		want.Aux = append(want.Aux, dec(s))
	}
	for _, s := range []string{"7059793422771910484", "2556686405730241944", "2133554817341762742", "8974371243071329347"} {
		want.TargetInst = append(want.TargetInst, dec(s))
	}
	ww, err := frontend.NewWitness(&want, vR)
	if err != nil {
		t.Fatal(err)
	}
	vec := fmt.Sprint(ww.Vector())
	for _, step := range []string{"none", "compile", "srs", "setup", "witness", "prove", "public", "verify"} {
		vCase()
		logf := filepath.Join(tmp, "log."+step)
		cmd := exec.Command(bin)
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "VSTUB_FAIL="+step, "VSTUB_LOG="+logf)
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			t.Fatal(err)
		}
		go func() { done <- cmd.Wait() }()
		var runErr error
		select {
		case runErr = <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			runErr = <-done
		}
		b, _ := os.ReadFile(logf)
		verified := false
		for _, l := range strings.Split(string(b), "\n") {
			if pub, ok := strings.CutPrefix(l, "PUBLIC "); ok {
				for _, x := range want.TargetInst {
					if step == "none" && !strings.Contains(pub, x.(*big.Int).String()) {
						vFail("the driver verifies a proof that is not bound to the target instance: its public inputs are %s", pub)
						break
					}
				}
			}
			if l == "VERIFIED "+vec {
				verified = true
			}
		}
		compiled := strings.Contains(string(b), "COMPILED "+vR.String()+" *main.AggregatorCircuit")
		if runErr == nil && step != "none" {
			vFail("the driver ends normally although %s fails", step)
		} else if runErr == nil && !(verified && compiled) {
			vFail("the driver ends normally without having verified a proof for the given values (step failing: %s)", step)
		}
	}
	vDone(t)
}
