DEFS = []
def B(id, property, needs, breaks, pkg, edits, demo, **k):
    DEFS.append(dict(id=id, property=property, needs=needs, breaks=breaks, pkg=pkg, edits=edits, demo=demo, **k))

# ------------------------------------------------------------------ C23
BM = 'benchmark.go'
PROG = r'''
import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
)

var _ = kzg_bn254.NewSRS
var _ = groth16.NewProof
var _ = big.NewInt
var _ = strings.Contains
var _ = fmt.Sprint

// a circuit with two public inputs of which the second is the square of the first
type demoCircuit struct {
	X []frontend.Variable `gnark:",public"`
}

func (c *demoCircuit) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X[0], c.X[0]), c.X[1])
	api.AssertIsEqual(api.Mul(c.X[0], c.X[1], c.X[0]), api.Mul(c.X[1], c.X[1]))
	return nil
}

func TestMain(m *testing.M) {
	if d := os.Getenv("DEMO_CHILD"); d != "" {
		if err := os.Chdir(d); err != nil {
			panic(err)
		}
		name, system, dummy := os.Getenv("DEMO_NAME"), os.Getenv("DEMO_SYSTEM"), os.Getenv("DEMO_DUMMY") == "1"
		c := &demoCircuit{X: make([]frontend.Variable, 2)}
		if system == "plonk" {
			ccs, err := frontend.Compile(ecc.BN254.ScalarField(), scs.NewBuilder, c)
			if err != nil {
				panic(err)
			}
			plonkProof(ccs, name, dummy, true)
		} else {
			ccs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, c)
			if err != nil {
				panic(err)
			}
			groth16Proof(ccs, name, dummy, true)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// prog runs the back half of the program on a circuit whose public inputs are the given ones
func prog(t *testing.T, name, system string, dummy bool, dir string, pis ...uint64) (int, string) {
	wd, _ := os.Getwd()
	src := filepath.Join(wd, "testdata", "step")
	dst := filepath.Join(dir, "testdata", name)
	os.MkdirAll(dst, 0o755)
	for _, f := range []string{"proof_with_public_inputs.json", "verifier_only_circuit_data.json", "common_circuit_data.json"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			t.Fatal(err)
		}
		if strings.HasPrefix(f, "proof") {
			var v map[string]json.RawMessage
			if err := json.Unmarshal(b, &v); err != nil {
				t.Fatal(err)
			}
			v["public_inputs"], _ = json.Marshal(pis)
			b, _ = json.Marshal(v)
		}
		os.WriteFile(filepath.Join(dst, f), b, 0o644)
	}
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_CHILD="+dir, "DEMO_NAME="+name, "DEMO_SYSTEM="+system)
	if dummy {
		c.Env = append(c.Env, "DEMO_DUMMY=1")
	}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.Run()
	return c.ProcessState.ExitCode(), out.String()
}
'''
B('c23-silent-failure', 'C23', 'a Plonk proof that cannot be made, because the public inputs are wrong',
  'the program reports success although no proof was made', '.',
  [(BM, '''	proof, err := plonk.Prove(r1cs, pk, witness)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
''', '''	proof, err := plonk.Prove(r1cs, pk, witness)
	if err != nil {
		fmt.Println(err)
		return
	}
''')], PROG + r'''
func TestZZDemo(t *testing.T) {
	if c, out := prog(t, "step", "plonk", true, t.TempDir(), 5, 25); c != 0 {
		t.Fatal("a valid input fails", out)
	}
	if c, out := prog(t, "step", "plonk", true, t.TempDir(), 5, 26); c == 0 {
		t.Fatal("an invalid input succeeds", out)
	}
}
''', prelude=False, pkgname='main')
B('c23-default-circuit', 'C23', 'the Groth16 path with a circuit other than the default one',
  'the witness is taken from the default circuit instead of the named one', '.',
  [(BM, '''func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool, saveArtifacts bool) {
	var pk groth16.ProvingKey
	var vk groth16.VerifyingKey
	var err error

	proofWithPis := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("testdata/" + circuitName + "/proof_with_public_inputs.json"))
''', '''func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool, saveArtifacts bool) {
	var pk groth16.ProvingKey
	var vk groth16.VerifyingKey
	var err error

	proofWithPis := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("testdata/step/proof_with_public_inputs.json"))
''')], PROG + r'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	if c, out := prog(t, "step", "groth16", false, d, 5, 25); c != 0 {
		t.Fatal("a valid input fails", out)
	}
	if c, out := prog(t, "mine", "groth16", false, d, 5, 26); c == 0 {
		t.Fatal("an invalid input succeeds", out)
	}
	if c, out := prog(t, "mine", "groth16", false, t.TempDir(), 6, 36); c != 0 {
		t.Fatal("a valid input fails", out)
	}
}
''', prelude=False, pkgname='main')
B('c23-coordinate-order', 'C23', 'using the printed coordinates of a Groth16 proof',
  'the two halves of the second coordinate of b are swapped', '.',
  [(BM, '''	b[1][0] = new(big.Int).SetBytes(proofBytes[fpSize*4 : fpSize*5])
	b[1][1] = new(big.Int).SetBytes(proofBytes[fpSize*5 : fpSize*6])
''', '''	b[1][1] = new(big.Int).SetBytes(proofBytes[fpSize*4 : fpSize*5])
	b[1][0] = new(big.Int).SetBytes(proofBytes[fpSize*5 : fpSize*6])
''')], PROG + r'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	c, out := prog(t, "step", "groth16", false, d, 5, 25)
	if c != 0 {
		t.Fatal("a valid input fails", out)
	}
	b, err := os.ReadFile(filepath.Join(d, "proof.proof"))
	if err != nil {
		t.Fatal(err)
	}
	p := groth16.NewProof(ecc.BN254)
	if _, err := p.ReadFrom(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	var raw bytes.Buffer
	p.WriteRawTo(&raw)
	for i, k := range []string{"a[0]", "a[1]", "b[0][0]", "b[0][1]", "b[1][0]", "b[1][1]", "c[0]", "c[1]"} {
		if v := new(big.Int).SetBytes(raw.Bytes()[32*i : 32*i+32]).String(); !strings.Contains(out, k+" is  "+v) && !strings.Contains(out, k+" is "+v) {
			t.Fatal(k, " is not ", v)
		}
	}
}
''', prelude=False, pkgname='main')
B('c23-test-srs', 'C23', 'a damaged srs_setup file',
  'a damaged setup file is silently replaced by an insecure test setup', '.',
  [(BM, '''		_, err = srs.ReadFrom(fSRS)

		fSRS.Close()

		if err != nil {
			panic(err)
		}
''', '''		_, err = srs.ReadFrom(fSRS)

		fSRS.Close()

		if err != nil {
			srs, err = test.NewKZGSRS(r1cs)
			if err != nil {
				panic(err)
			}
		}
''')], PROG + r'''
func TestZZDemo(t *testing.T) {
	srs, err := kzg_bn254.NewSRS(64+3, big.NewInt(12345))
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	srs.WriteTo(&b)
	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "srs_setup"), b.Bytes(), 0o644)
	if c, out := prog(t, "step", "plonk", false, d, 5, 25); c != 0 {
		t.Fatal("a valid input fails", out)
	}
	b.Truncate(b.Len() / 2)
	d = t.TempDir()
	os.WriteFile(filepath.Join(d, "srs_setup"), b.Bytes(), 0o644)
	if c, out := prog(t, "step", "plonk", false, d, 5, 25); c == 0 {
		t.Fatal("a damaged setup file is accepted", out)
	}
}
''', prelude=False, pkgname='main')
