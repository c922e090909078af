package checks

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verifharness/eng"
)

// progCircuit asserts, after the last operation, that every variable of the program has the stated value.
type progCircuit struct {
	bulk int // extra multiplications, so that the commitment-based range checker is applicable
	In   []frontend.Variable
	Out  []frontend.Variable `gnark:",public"`
	p    *program
}

func (c *progCircuit) Define(api frontend.API) error {
	o := c.p.run(api, c.In)
	if c.bulk > 0 {
		g := gl.New(api)
		a, b := gl.NewVariable(c.In[0]), gl.NewVariable(c.In[1])
		for i := 0; i < c.bulk; i++ {
			a = g.MulAdd(a, b, a)
		}
	}
	if len(o) != len(c.Out) {
		return fmt.Errorf("%d values, want %d", len(o), len(c.Out))
	}
	for i := range o {
		api.AssertIsEqual(o[i], c.Out[i])
	}
	return nil
}

func vars(x []*big.Int) []frontend.Variable {
	o := make([]frontend.Variable, len(x))
	for i := range x {
		o[i] = new(big.Int).Set(x[i])
	}
	return o
}

var builders = map[string]frontend.NewBuilder{"r1cs": r1cs.NewBuilder, "scs": scs.NewBuilder}

func init() { logger.Disable() }

// quiet sends what the library prints to standard output to /dev/null while f runs.
func quiet(f func()) {
	old := os.Stdout
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = n
	defer func() { os.Stdout = old; n.Close() }()
	f()
}

func compileProg(p *program, backend string, bulk int) (ccs constraint.ConstraintSystem, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return compileAny(&progCircuit{In: make([]frontend.Variable, len(p.inputs())), Out: make([]frontend.Variable, len(p.outputs())), p: p, bulk: bulk}, backend)
}

func compileAny(c frontend.Circuit, backend string) (constraint.ConstraintSystem, error) {
	return frontend.Compile(ecc.BN254.ScalarField(), builders[backend], c)
}

func solved(ccs constraint.ConstraintSystem, in, out []*big.Int) (err error) {
	w, err := frontend.NewWitness(&progCircuit{In: vars(in), Out: vars(out)}, ecc.BN254.ScalarField())
	must(err)
	return solveWith(ccs, w)
}

func solveWith(ccs constraint.ConstraintSystem, w witness.Witness) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	var opts []solver.Option
	commit := func(_ *big.Int, in, out []*big.Int) error { // stands for the prover's commitment
		hs := sha256.New()
		for _, x := range in {
			hs.Write(x.Bytes())
			hs.Write([]byte{0})
		}
		out[0].SetBytes(hs.Sum(nil)).Mod(out[0], eng.N)
		return nil
	}
	switch c := ccs.GetCommitments().(type) {
	case constraint.Groth16Commitments:
		for i := range c {
			opts = append(opts, solver.OverrideHint(c[i].HintID, commit))
		}
	case constraint.PlonkCommitments:
		for i := range c {
			opts = append(opts, solver.OverrideHint(c[i].HintID, commit))
		}
	}
	return ccs.IsSolved(w, opts...)
}

func bitDecomp(f func()) {
	os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	defer os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
	quiet(f)
}

func TestC22_programs(t *testing.T) {
	Section(t, "random programs of 3..16 library operations (base field, extension, algebra, lookups, BN254 hashing, gates) with shared operands, compiled to R1CS and to Plonk: solved by the values of direct evaluation, all variables compared after the last operation, and by no perturbed output; non-trivial: some variable used more than once", 2000, 60000, func(t *T, h *H) {
		bodyC22(t, h, drawProgram(t, uni(t, 3, 16, "ops"), false), 0)
	})
}

func TestC22_hashes(t *testing.T) {
	Section(t, "random programs of 1..4 operations that include Goldilocks Poseidon hashing and challengers, as above", 32, 600, func(t *T, h *H) {
		bodyC22(t, h, drawProgram(t, uni(t, 1, 4, "ops"), true), 0)
	})
}

func TestC22_commit(t *testing.T) {
	Section(t, "random programs of 3..10 operations next to 20000 multiplications, compiled with the commitment-based range checker, as above; non-trivial: some variable used more than once", 8, 120, func(t *T, h *H) {
		bodyC22(t, h, drawProgram(t, uni(t, 3, 10, "ops"), false), 20000)
	})
}

func bodyC22(t *T, h *H, p *program, bulk int) {
	env := bitDecomp
	if bulk > 0 {
		env = quiet
	}
	env(func() {
		in, out := p.inputs(), p.outputs()
		var pos []int
		var delta []*big.Int
		for k := 0; k < 2; k++ {
			pos = append(pos, intn(t, len(out), "perturb"))
			d := pick(t, []*big.Int{big.NewInt(1), eng.P, new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(1 + seed(t)%1000000007)}, "delta")
			delta = append(delta, d)
		}
		for _, b := range []string{"r1cs", "scs"} {
			ccs, err := compileProg(p, b, bulk)
			if err != nil && b == "scs" && strings.Contains(err.Error(), "div by 0") && strings.Contains(err.Error(), "mulConstraintExist") {
				// gnark's Plonk builder cannot look up an earlier product with a zero coefficient, which a
				// selection between two identical variables leaves behind: excluded, see DESIGN.md
				h.Class("excluded: zero product in gnark's Plonk builder", 1)
				continue
			}
			if err != nil {
				t.Fatalf("%s: program does not compile: %v\n%s", b, err, p)
			}
			if err := solved(ccs, in, out); err != nil {
				t.Fatalf("%s: not satisfied by the values of direct evaluation: %v\ninputs %v\n%s", b, err, in, p)
			}
			for k := range pos {
				bad := append([]*big.Int(nil), out...)
				bad[pos[k]] = new(big.Int).Mod(new(big.Int).Add(out[pos[k]], delta[k]), eng.N)
				if solved(ccs, in, bad) == nil {
					t.Fatalf("%s: satisfied with output %d = %v instead of %v\ninputs %v\n%s", b, pos[k], bad[pos[k]], out[pos[k]], in, p)
				}
			}
			h.Evals(len(pos))
			h.Class(b+" constraints/1000", ccs.GetNbConstraints()/1000)
		}
		h.Case(p.shared, fmt.Sprintf("%d ops", len(p.ops)/4*4), p.String())
	})
}

// The same programs on the evaluation engine, where many more fit.
func TestC22_engine(t *testing.T) {
	Section(t, "random programs of 3..40 operations evaluated with native range checks: every variable, read after the last operation, has the value of direct evaluation; non-trivial: some variable used more than once", 24000, 600000, func(t *T, h *H) {
		p := drawProgram(t, uni(t, 3, 40, "ops"), false)
		bodyC22engine(t, h, p)
	})
}

func bodyC22engine(t *T, h *H, p *program) {
	out := p.outputs()
	accept(t, eng.Native, p.String(), func(api frontend.API) {
		var in []frontend.Variable
		for _, v := range p.inputs() {
			in = append(in, eng.B(v))
		}
		got := p.run(api, in)
		if len(got) != len(out) {
			t.Fatalf("%d values, want %d: %s", len(got), len(out), p)
		}
		for i := range got {
			if eng.Get(got[i]).Cmp(out[i]) != 0 {
				t.Fatalf("value %d is %v, direct evaluation gives %v\ninputs %v\n%s", i, eng.Get(got[i]), out[i], p.inputs(), p)
			}
		}
	})
	h.Case(p.shared, fmt.Sprintf("%d ops", len(p.ops)/8*8), p.String())
}
