package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/prove"
	"verifharness/ref"
)

// misshape gives the claim a shape that contradicts its description while every remaining value is
// consistent with what a verifier that overlooked the contradiction would compute.
func misshape(t *T, f *friCase) string {
	r := ref.NewRng(seed(t))
	c := f.c
	q := intn(t, len(f.p.Queries), "query")
	L := len(c.Arities)
	kinds := []string{"queries-", "queries+", "queries-last", "query-indices", "sib-", "sib+", "leaf+", "leaf+", "leaf-", "leaf-last", "tree+", "tree-", "step+", "initcap+", "initcap-", "initcap-short", "final+", "final-", "final0+"}
	if L > 0 {
		kinds = append(kinds, "step-", "stepsib-", "stepsib+", "evals+", "evals-", "commitcap+", "commitcap-", "stepsib-", "stepsib+")
	}
	kind := pick(t, kinds, "shape")
	l, tr := 0, intn(t, 4, "tree")
	if L > 0 {
		l = intn(t, L, "layer")
	}
	Q := &f.p.Queries[q]
	k := 1 + intn(t, 3, "amount")
	switch kind {
	case "queries-": // fewer rounds than the description fixes, all of them correct
		c.NumQueries += k
	case "queries+": // more rounds than the description fixes, all of them correct
		if c.NumQueries > 1 {
			c.NumQueries--
		} else {
			f.p.Queries = append(f.p.Queries, f.p.Queries[q])
			f.ch.Indices = append(f.ch.Indices, f.ch.Indices[q])
		}
	case "query-indices": // the description's number of indices, a surplus round
		f.p.Queries = append(f.p.Queries, f.p.Queries[q])
	case "queries-last": // the description's number of indices, the last round missing
		f.p.Queries = f.p.Queries[:len(f.p.Queries)-1]
	case "sib-", "sib+":
		s := &Q.Initial[tr].Siblings
		if kind == "sib-" {
			if len(*s) == 0 {
				kind = "sib+"
			} else if k > len(*s) {
				k = len(*s)
			}
		}
		if kind == "sib-" {
			*s = (*s)[:len(*s)-k]
		} else {
			*s = append(*s, rfrs(r, k)...)
		}
		f.setInitialRoot(q, tr)
	case "stepsib-", "stepsib+":
		s := &Q.Steps[l].Siblings
		if kind == "stepsib-" && len(*s) == 0 {
			kind = "stepsib+"
		}
		if kind == "stepsib-" {
			if k > len(*s) {
				k = len(*s)
			}
			*s = (*s)[:len(*s)-k]
		} else {
			*s = append(*s, rfrs(r, k)...)
		}
		f.setStepRoot(q, l)
	case "leaf+":
		Q.Initial[tr].Leaf = append(Q.Initial[tr].Leaf, r.Fs(pick(t, []int{1, 2, 4}, "extra"))...)
		if rapid.Bool().Draw(t, "zeros") {
			for i := c.OracleSizes()[tr]; i < len(Q.Initial[tr].Leaf); i++ {
				Q.Initial[tr].Leaf[i] = 0
			}
		}
		f.setInitialRoot(q, tr)
	case "leaf-":
		Q.Initial[tr].Leaf = Q.Initial[tr].Leaf[:intn(t, len(Q.Initial[tr].Leaf), "keep")]
		f.setInitialRoot(q, tr)
	case "leaf-last": // the last element missing, as if it were zero
		lf := Q.Initial[tr].Leaf
		lf[len(lf)-1] = 0
		if !f.link(q) {
			t.Skip("degenerate")
		}
		lf = Q.Initial[tr].Leaf
		Q.Initial[tr].Leaf = lf[:len(lf)-1]
		f.setRoots(q)
	case "tree+":
		for i := range f.p.Queries {
			f.p.Queries[i].Initial = append(f.p.Queries[i].Initial, ref.InitialOpening{Leaf: r.Fs(k), Siblings: rfrs(r, f.lde()-c.CapHeight)})
		}
		f.caps = append(f.caps, rfrs(r, 1<<c.CapHeight))
		for i := range f.p.Queries {
			f.setInitialRoot(i, 4)
		}
	case "tree-":
		for i := range f.p.Queries {
			f.p.Queries[i].Initial = f.p.Queries[i].Initial[:4-k]
		}
		f.caps = f.caps[:4-k]
	case "step+":
		Q.Steps = append(Q.Steps, ref.Step{Evals: r.Es(16), Siblings: rfrs(r, intn(t, 3, "sibs"))})
	case "step-":
		Q.Steps = Q.Steps[:L-1-intn(t, L, "keep")]
	case "evals+":
		Q.Steps[l].Evals = append(Q.Steps[l].Evals, r.Es(pick(t, []int{1, 16, 240}, "extra"))...)
		f.setStepRoot(q, l)
	case "evals-":
		Q.Steps[l].Evals = Q.Steps[l].Evals[:pick(t, []int{0, 1, 8, 15}, "keep")]
		f.setStepRoot(q, l)
	case "initcap+":
		f.caps[tr] = append(f.caps[tr], rfrs(r, pick(t, []int{1, 16, 48}, "extra"))...)
	case "initcap-":
		f.caps[tr] = f.caps[tr][:pick(t, []int{0, 1, 4, 8, 15}, "keep")]
	case "initcap-short": // all entries equal: whichever is picked is right
		for i := range f.caps[tr] {
			f.caps[tr][i] = f.caps[tr][f.slot(q)]
		}
		f.caps[tr] = f.caps[tr][:pick(t, []int{1, 4, 8, 15}, "keep")]
	case "commitcap+":
		f.p.CommitCaps[l] = append(f.p.CommitCaps[l], rfrs(r, pick(t, []int{1, 16, 48}, "extra"))...)
	case "commitcap-":
		for i := range f.p.CommitCaps[l] {
			f.p.CommitCaps[l][i] = f.p.CommitCaps[l][f.slot(q)]
		}
		f.p.CommitCaps[l] = f.p.CommitCaps[l][:pick(t, []int{1, 4, 8, 15}, "keep")]
	case "final+", "final0+", "final-":
		n := len(f.p.FinalPoly)
		switch kind {
		case "final0+": // padded with zero coefficients: evaluations are unchanged
			f.p.FinalPoly = append(f.p.FinalPoly, make([]ref.E, pick(t, []int{1, n}, "extra"))...)
			return kind
		case "final+":
			f.p.FinalPoly = append(f.p.FinalPoly, r.Es(pick(t, []int{1, n}, "extra"))...)
		default:
			f.p.FinalPoly = f.p.FinalPoly[:n-1-intn(t, n, "less")]
		}
		relink(t, f)
	}
	return kind
}

// refused fails unless the circuit refuses or rejects the claim, whatever prover drives it.
func (f *friCase) refused(t *T, m eng.Mode, what string) error {
	// a cooperative prover that does not give up early
	err := run(eng.Opt{Mode: m, Lenient: true}, f.circuit)
	if err == nil {
		t.Fatalf("%s: the shape contradicts the description, but the proof is accepted\n%s", what, f)
	}
	return err
}

func TestC16_shape(t *testing.T) {
	Section(t, "FRI claims that are consistent in every value but whose number of queries, trees, leaf elements, siblings, steps, evaluations, cap entries or final coefficients contradicts the description; roots, folds and final evaluation recomputed for the wrong shape; must be refused; non-trivial: altered claims (unaltered ones must be accepted)", 6000, 80000, bodyC16shape)
}

func bodyC16shape(t *T, h *H) {
	c := drawFriCommon(t, friOpt{layers: -1, maxQueries: 3})
	f := buildFri(t, c)
	m := friMode(t)
	if rapid.IntRange(0, 9).Draw(t, "honest?") == 9 {
		accept(t, m, "well-shaped claim "+f.String(), f.circuit)
		h.Case(false, "honest", f.String(), f.zeta)
		return
	}
	what := misshape(t, f)
	err := f.refused(t, m, what)
	how := "refused"
	if _, ok := err.(*eng.Reject); ok {
		how = "unsatisfied"
	}
	h.Case(true, what+"/"+how, f.String(), f.zeta)
}

func TestC16_config(t *testing.T) {
	Section(t, "natively valid FRI claims for a folding arity or cap height the verifier does not support, with cap entries and evaluations placed so that a verifier assuming the supported one would find them; must be refused; non-trivial: all", 800, 16000, bodyC16config)
}

func bodyC16config(t *T, h *H) {
	o := friOpt{layers: pick(t, []int{1, 1, 2}, "layers"), maxQueries: 1}
	kind := pick(t, []string{"arity", "arity", "mixed", "cap"}, "kind")
	switch kind {
	case "arity":
		o.arity = pick(t, []int{1, 2, 3, 5, 6}, "arity")
	case "cap":
		o.cap = pick(t, []int{1, 2, 3, 5, 6}, "cap")
		o.layers = pick(t, []int{0, 1}, "layers")
	}
	c := drawFriCommon(t, o)
	if kind == "mixed" {
		i := intn(t, len(c.Arities), "which")
		a := pick(t, []int{1, 2, 3, 5}, "arity")
		c.DegreeBits += a - 4
		c.Arities[i] = a
		for c.LdeBits()-sum(c.Arities) < c.CapHeight {
			c.RateBits++
		}
	}
	if c.LdeBits() > 20 {
		t.Skip("too large")
	}
	f := buildFri(t, c)
	if kind == "cap" {
		// the root at every position
		all := func(cap []fr.Element) {
			for i := range cap {
				cap[i] = cap[f.slot(0)]
			}
		}
		for _, x := range f.caps {
			all(x)
		}
		for _, x := range f.p.CommitCaps {
			all(x)
		}
		if f.ref() != nil {
			panic("HARNESS: cap case inconsistent")
		}
	}
	f.refused(t, friMode(t), kind)
	h.Case(true, fmt.Sprintf("%s/arities %v/cap %d", kind, c.Arities, c.CapHeight), f.String(), f.zeta)
}

func sum(xs []int) (s int) {
	for _, x := range xs {
		s += x
	}
	return
}

// Lists that only the whole verifier sees: openings and public inputs.
func TestC16_whole(t *testing.T) {
	Section(t, "whole proofs with more or fewer openings or public inputs than the description fixes, made by a prover so that hashes, transcript, vanishing identity and FRI agree with the wrong lists (surplus zero openings, wires claimed as permutation polynomials, public inputs extended or cut so that their hash stays the same); must be refused; non-trivial: everything but the lengths is consistent", 160, 3000, bodyC16whole)
}

func bodyC16whole(t *T, h *H) {
	cfg := drawConfig(t, false)
	ch := prove.Cheat{Kind: pick(t, []string{"pi+", "pi+", "pi-", "shape-quotient", "shape-zsnext", "shape-wires", "cap+"}, "kind"), A: intn(t, 3, "amount"), R: seed(t)}
	switch ch.Kind {
	case "pi-":
		cfg.NumPI = uni(t, 1, 8, "public inputs") // one block
		cfg.ZeroPI = 1 + ch.A
	case "shape-wires":
		cfg.Flat, cfg.Gates = true, []ref.Gate{ref.PublicInput{}, ref.Noop{}}
		cfg.OneW, cfg.ExtraW = 1+ch.A, 1+ch.A+intn(t, 2, "more")
	}
	kind := ch.Kind
	if strings.HasPrefix(kind, "pi") || kind == "cap+" {
		ch.Kind = ""
	}
	ct, r := buildProof(t, cfg, ch)
	right := ref.HashNoPad(r.PIs)
	consistent := kind != "cap+"
	switch kind {
	case "cap+": // surplus cap entries: not consistent, as they are observed
		c := pick(t, []*[]fr.Element{&r.Proof.WiresCap, &r.Proof.ZsCap, &r.Proof.QuotientCap}, "cap")
		*c = append(*c, rfrs(ref.NewRng(ch.R), pick(t, []int{1, 16}, "surplus"))...)
	case "pi+":
		for i := 0; i <= ch.A; i++ {
			r.PIs = append(r.PIs, ref.NextUnchanged(r.PIs))
		}
		consistent = ref.HashNoPad(r.PIs) == right
	case "pi-":
		k := 1 + ch.A
		if k > len(r.PIs) {
			k = len(r.PIs)
		}
		r.PIs = r.PIs[:len(r.PIs)-k]
		consistent = ref.HashNoPad(r.PIs) == right
	}
	if ref.Verify(ct.C, r.VD, r.Proof, r.PIs) == nil {
		panic("HARNESS: the native verifier accepts a wrong shape")
	}
	if err := run(eng.Opt{Lenient: true}, whole(ct.C, r.VD, r.Proof, r.PIs)); err == nil {
		t.Fatalf("%s (%d): accepted, with %d public inputs and %d/%d/%d/%d/%d/%d/%d openings, for %s", kind, ch.A+1, len(r.PIs),
			len(r.Proof.Openings.Constants), len(r.Proof.Openings.Sigmas), len(r.Proof.Openings.Wires), len(r.Proof.Openings.Zs),
			len(r.Proof.Openings.ZsNext), len(r.Proof.Openings.PartialProducts), len(r.Proof.Openings.Quotient), descCfg(ct.C, cfg.NumPI))
	}
	h.Case(consistent, fmt.Sprintf("%s/consistent %v", kind, consistent), descCfg(ct.C, len(r.PIs)), cfg.Seed, ch)
}
