package prove

import (
	"fmt"
	"testing"
	"time"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifharness/conv"
	"verifharness/eng"
	. "verifharness/ref"
)

func run(r *Result, c *Common, o eng.Opt) error {
	return eng.Run(o, func(api frontend.API) error {
		verifier.NewVerifierChip(api, conv.Common(c)).Verify(conv.Engine.Proof(r.Proof), conv.Engine.Gls(r.PIs), conv.Engine.VD(r.VD))
		return nil
	})
}

// The prover's honest proofs verify, its dishonest ones do not (natively and in the circuit).
func TestProve(t *testing.T) {
	cfgs := []Config{
		{Gates: []Gate{Noop{}}, RoutedQ: 1, NumCh: 1, DegreeB: 1, RateB: 3, Queries: 1, Flat: true},
		{Gates: []Gate{Noop{}, Arithmetic{1}}, RoutedQ: 2, NumCh: 2, DegreeB: 4, RateB: 4, Queries: 2, Arities: []int{4}, Flat: true},
		{Gates: []Gate{Noop{}, PublicInput{}, Arithmetic{2}, Constant{2}}, RoutedQ: 2, NumCh: 2, DegreeB: 3, RateB: 3, Queries: 3, NumPI: 3, PowBits: 4},
	}
	for _, cfg := range cfgs {
		t0 := time.Now()
		ct := Build(&cfg)
		r := ct.Prove(Cheat{})
		t1 := time.Now()
		err := Verify(ct.C, r.VD, r.Proof, r.PIs)
		t2 := time.Now()
		err2 := run(r, ct.C, eng.Opt{})
		fmt.Println(r.Note, err, err2, t1.Sub(t0), t2.Sub(t1), time.Since(t2))
		if err != nil || err2 != nil {
			t.Fatal(err, err2)
		}
		if cfg.Flat {
			continue
		}
		for i, k := range CheatKinds {
			if len(cfg.Arities) == 0 && (k == "fold" || k == "commit-cap" || k == "fri-random") {
				continue
			}
			r := ct.Prove(Cheat{Kind: k, A: 7, B: 5, R: uint64(i)})
			err := Verify(ct.C, r.VD, r.Proof, r.PIs)
			err2 := run(r, ct.C, eng.Opt{Lenient: true})
			if err == nil || err2 == nil {
				t.Error("   ", k, "|", err, "|", err2)
			}
		}
	}
}
