package checks

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifharness/conv"
	"verifharness/prove"
	"verifharness/ref"
)

// wholeCircuit is a verifier circuit whose proof and verifier data are witness variables.
type wholeCircuit struct {
	PIs    []gl.Variable `gnark:",public"`
	Proof  variables.Proof
	VD     variables.VerifierOnlyCircuitData
	common types.CommonCircuitData
}

func (c *wholeCircuit) Define(api frontend.API) error {
	verifier.NewVerifierChip(api, c.common).Verify(c.Proof, c.PIs, c.VD)
	return nil
}

func assigned(r *prove.Result) *wholeCircuit {
	return &wholeCircuit{PIs: conv.Const.Gls(r.PIs), Proof: conv.Const.Proof(r.Proof), VD: conv.Const.VD(r.VD)}
}

func example(c *ref.Common, r *prove.Result) *verifier.ExampleVerifierCircuit {
	return &verifier.ExampleVerifierCircuit{PublicInputs: conv.Const.Gls(r.PIs), Proof: conv.Const.Proof(r.Proof), VerifierOnlyCircuitData: conv.Const.VD(r.VD), CommonCircuitData: conv.Common(c)}
}

func compileSafe(c frontend.Circuit, backend string) (ccs constraint.ConstraintSystem, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return compileAny(c, backend)
}

// Whole verifiers as gnark compiles them, with the range checker a real build selects.
func TestC22_whole(t *testing.T) {
	Section(t, "whole verifiers of random configurations, compiled to R1CS or to Plonk constraints with the commitment-based range checker, with the proof as witness or (ExampleVerifierCircuit) as constants: solved by a valid proof and by a valid proof of another circuit with the same description, not by 3 tampered ones; one public variable per public input; non-trivial: all", 8, 160, bodyC22whole)
}

func bodyC22whole(t *T, h *H) {
	cfg := drawConfig(t, false)
	cfg.Queries, cfg.PowBits = uni(t, 1, 2, "queries"), pick(t, []int{0, 16}, "pow") // widths must be multiples of 16 in this mechanism
	if cfg.NumPI == 0 {
		cfg.NumPI = 3
	}
	ct, r := buildProof(t, cfg, prove.Cheat{})
	b := pick(t, []string{"r1cs", "r1cs", "scs"}, "backend")
	name := fmt.Sprintf("%s, %s", b, descCfg(ct.C, len(r.PIs)))
	constant := intn(t, 3, "constant") == 2
	build := func() (ccs constraint.ConstraintSystem, err error) {
		quiet(func() {
			if constant {
				ccs, err = compileSafe(example(ct.C, r), b)
			} else {
				c := assigned(r)
				c.common = conv.Common(ct.C)
				ccs, err = compileSafe(c, b)
			}
		})
		return
	}
	ccs, err := build()
	if err != nil {
		t.Fatalf("the verifier does not compile: %v\n%s", err, name)
	}
	pub := len(r.PIs)
	if b == "r1cs" {
		pub++ // the constant one
	}
	if n := ccs.GetNbPublicVariables(); n != pub {
		t.Fatalf("%d public variables, want %d\n%s", n, pub, name)
	}
	solve := func(r *prove.Result) (err error) {
		quiet(func() {
			var a frontend.Circuit = assigned(r)
			if constant {
				a = example(ct.C, r)
			}
			w, e := frontend.NewWitness(a, ecc.BN254.ScalarField())
			must(e)
			err = solveWith(ccs, w)
		})
		return
	}
	if err := solve(r); err != nil {
		t.Fatalf("a valid proof does not solve the verifier (constant proof: %v): %v\n%s", constant, err, name)
	}
	if !constant {
		c2 := *cfg
		c2.Seed = cfg.Seed ^ 0x5555555555555555
		ct2, r2 := buildProof(t, &c2, prove.Cheat{})
		if reflect.DeepEqual(ct.C, ct2.C) {
			if err := solve(r2); err != nil {
				t.Fatalf("a valid proof of another circuit with the same description does not solve the verifier: %v\n%s", err, name)
			}
		}
	}
	for i := 0; i < 3; i++ {
		x := &prove.Result{VD: r.VD.Clone(), Proof: r.Proof.Clone(), PIs: append([]uint64{}, r.PIs...)}
		what := "public input"
		if constant {
			x.PIs[intn(t, len(x.PIs), "which")] = seed(t) % ref.P
		} else {
			n := len(x.PIs)
			what = tamper(t, ref.NewRng(seed(t)), ct.C, x.VD, x.Proof, &x.PIs)
			if len(x.PIs) != n {
				continue
			}
		}
		if ref.Verify(ct.C, x.VD, x.Proof, x.PIs) == nil {
			continue
		}
		if solve(x) == nil {
			t.Fatalf("solved after a change of: %s\n%s", what, name)
		}
		h.Evals(1)
	}
	h.Case(true, fmt.Sprintf("%s, constant proof %v", b, constant), name, cfg.Seed)
}
