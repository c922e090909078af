package checks

import (
	"fmt"
	"math/big"
	"os"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/prove"
	"verifharness/ref"
)

// drawConfig draws a circuit: gate set and parameters, table size, permutation width, FRI parameters.
func drawConfig(t *T, big bool) *prove.Config {
	cfg := &prove.Config{Seed: seed(t)}
	seen := map[string]bool{}
	add := func(g ref.Gate) {
		if !seen[g.ID()] && g.Degree() <= 8 {
			seen[g.ID()] = true
			cfg.Gates = append(cfg.Gates, g)
		}
	}
	add(ref.PublicInput{})
	if rapid.IntRange(0, 3).Draw(t, "noop") > 0 {
		add(ref.Noop{})
	}
	for i := uni(t, 1, 5, "gates"); i > 0; i-- {
		add(drawGate(t, !big || rapid.IntRange(0, 3).Draw(t, "smallGate") > 0))
	}
	cfg.NumPI = pick(t, []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 33}, "publicInputs")
	cfg.NumCh = pick(t, []int{1, 2, 2, 2, 3}, "challenges")
	cfg.Q = uni(t, 2, 8, "Q")
	cfg.RoutedQ = uni(t, 1, 4, "routedQ")
	cfg.RoutedCut = pick(t, []int{0, 0, 0, 1, 2, 5, 7}, "routedCut")
	cfg.ExtraW = pick(t, []int{0, 0, 1, 3}, "extraWires")
	cfg.ExtraCons = pick(t, []int{0, 0, 1}, "extraConstants")
	cfg.DegreeB = pick(t, []int{0, 1, 2, 3, 3, 4, 4, 4, 5, 5}, "degree")
	if big && rapid.IntRange(0, 9).Draw(t, "twoLayers") == 9 {
		cfg.DegreeB = 8
	}
	if big && intn(t, 100, "threeLayers") == 99 {
		threeLayers(cfg)
		return cfg
	}
	L := uni(t, 0, cfg.DegreeB/4, "layers")
	for i := 0; i < L; i++ {
		cfg.Arities = append(cfg.Arities, 4)
	}
	lo := 4 - (cfg.DegreeB - 4*L)
	if lo < 1 {
		lo = 1
	}
	cfg.RateB = lo + uni(t, 0, 2, "rate")
	cfg.PowBits = pick(t, []int{0, 1, 4, 6}, "pow")
	cfg.Queries = pick(t, []int{1, 1, 2, 2, 3, 4}, "queries")
	return cfg
}

// threeLayers makes the table so narrow that 2^12 rows are affordable.
func threeLayers(cfg *prove.Config) {
	cfg.Gates = []ref.Gate{ref.PublicInput{}, ref.Noop{}}
	cfg.NumCh, cfg.Q, cfg.RoutedQ, cfg.RoutedCut, cfg.ExtraW, cfg.ExtraCons = 1, 2, 1, 0, 0, 0
	cfg.DegreeB, cfg.Arities, cfg.RateB = 12, []int{4, 4, 4}, 4
	cfg.PowBits, cfg.Queries = 1, 2
}

func descCfg(c *ref.Common, npi int) string {
	return fmt.Sprintf("n=2^%d rate %d layers %v queries %d pow %d challenges %d Q %d routed %d wires %d constants %d selectors %d public inputs %d gates %v",
		c.DegreeBits, c.RateBits, c.Arities, c.NumQueries, c.PowBits, c.NumChallenges, c.Q, c.NumRouted, c.NumWires, c.NumConstants, len(c.Groups), npi, ids(c.Gates))
}

// whole runs the complete verifier.
func whole(c *ref.Common, vd *ref.VerifierData, p *ref.Proof, pis []uint64) func(api frontend.API) {
	return func(api frontend.API) {
		verifier.NewVerifierChip(api, conv.Common(c)).Verify(conv.Engine.Proof(p), conv.Engine.Gls(pis), conv.Engine.VD(vd))
	}
}

func buildProof(t *T, cfg *prove.Config, ch prove.Cheat) (*prove.Circuit, *prove.Result) {
	ct := prove.Build(cfg)
	r := ct.Prove(ch)
	if ch.Kind == "" {
		if err := ref.Verify(ct.C, r.VD, r.Proof, r.PIs); err != nil {
			panic("HARNESS: honest proof does not verify: " + err.Error())
		}
	}
	return ct, r
}

// ------------------------------------------------------------------ C01

func TestC01_random(t *testing.T) {
	Section(t, "random circuits (all 14 gates with drawn parameters, 0..33 public inputs, 1..3 challenge rounds, quotient factor 2..8, 2^0..2^8 rows, 0..2 folding layers, 1..4 queries) with a random satisfying table and copy constraints, proved by an independent prover and verified natively; the circuit must accept; non-trivial: at least one gate with constraints and one public input or copy constraint", 700, 12000, bodyC01random)
}

func bodyC01random(t *T, h *H) {
	cfg := drawConfig(t, true)
	ct, r := buildProof(t, cfg, prove.Cheat{})
	m := eng.Native
	if intn(t, 40, "plain") == 39 {
		m = eng.Plain
	}
	accept(t, m, "valid proof of "+descCfg(ct.C, len(r.PIs)), whole(ct.C, r.VD, r.Proof, r.PIs))
	h.Case(len(ct.C.Gates) > 1 && (len(r.PIs) > 0 || ct.Copies > 0), fmt.Sprintf("layers %d/%v", len(cfg.Arities), m), descCfg(ct.C, len(r.PIs)), cfg.Seed)
}

// The proofs shipped with the repository were made by Plonky2 itself.
func TestC01_shipped(t *testing.T) {
	Section(t, "the Plonky2 proofs shipped as test data, natively valid; accepted in the native mechanism (quick: one per shard); non-trivial: all", 8, 8, func(t *T, h *H) {
		dirs := []string{"/repo/testdata/step", "/repo/testdata/decode_block"}
		dir := dirs[envInt("VERIF_SHARD", 0)%2]
		if envInt("VERIF_SHARD", 0) > 1 { // one shard per file
			return
		}
		if _, err := os.Stat(dir); err != nil {
			return
		}
		c, vd, p, pis := ref.Load(dir)
		if err := ref.Verify(c, vd, p, pis); err != nil {
			panic("HARNESS: " + err.Error())
		}
		accept(t, eng.Native, dir, whole(c, vd, p, pis))
		h.Case(true, dir)
	})
}

// Commitment-based range checks need a certain size; a full verifier has it.
func TestC01_commit(t *testing.T) {
	Section(t, "valid proofs verified with the commitment-based range checker; non-trivial: all", 8, 120, func(t *T, h *H) {
		cfg := drawConfig(t, false)
		cfg.Queries, cfg.DegreeB, cfg.Arities, cfg.RateB = 4, 4, []int{4}, 5
		cfg.PowBits = pick(t, []int{0, 16}, "pow") // widths must be multiples of 16 in this mechanism
		ct, r := buildProof(t, cfg, prove.Cheat{})
		accept(t, eng.Commit, "valid proof of "+descCfg(ct.C, len(r.PIs)), whole(ct.C, r.VD, r.Proof, r.PIs))
		h.Case(true, "commit", descCfg(ct.C, len(r.PIs)), cfg.Seed)
	})
}

// The steps of the verifier on honest inputs, over wider parameters than whole proofs can afford.
func TestC01_steps(t *testing.T) {
	Section(t, "single steps of verification with wider parameters than whole proofs (gate evaluation with large parameters, selector aggregation, vanishing identity, FRI up to degree 2^21, hashing, transcripts), right result required; see C06 to C14; non-trivial: as there", 5000, 90000, func(t *T, h *H) {
		switch pick(t, []string{"gates", "gates", "filter", "plonk", "fri", "special", "leaf", "perm", "hash", "history"}, "step") {
		case "gates":
			bodyC10eval(t, h)
		case "filter":
			bodyC12filter(t, h)
		case "plonk":
			bodyC13identity(t, h)
		case "fri":
			bodyC14fri(t, h)
		case "special":
			bodyC14special(t, h)
		case "leaf":
			bodyC08leaf(t, h)
		case "perm":
			bodyC07perm(t, h)
		case "hash":
			bodyC07hash(t, h)
		case "history":
			bodyC09history(t, h)
		}
	})
}

// ------------------------------------------------------------------ C02

func drawCheat(t *T, cfg *prove.Config) prove.Cheat {
	kinds := append([]string{"gate-drop", "gate-drop", "copy-pp", "open-adapt"}, prove.CheatKinds...)
	return prove.Cheat{Kind: pick(t, kinds, "cheat"), A: intn(t, 1<<16, "A"), B: intn(t, 1<<16, "B"), R: seed(t)}
}

// usable tells whether a cheat applies to this configuration.
func usable(ch prove.Cheat, cfg *prove.Config) bool {
	switch ch.Kind {
	case "fold", "commit-cap", "fri-random":
		return len(cfg.Arities) > 0
	case "pow":
		return cfg.PowBits > 0
	case "beta-reuse":
		return cfg.NumCh > 1
	case "sigma":
		return cfg.DegreeB > 0
	}
	return true
}

func TestC02_cheat(t *testing.T) {
	Section(t, "proofs by a prover that breaks one protocol step (25 kinds: violated gate or copy constraint with the identity fitted around it, other public inputs, false openings, wrong quotient, oversized degree, skipped proof of work, foreign caps, folding layers or final polynomial, foreign constants or permutation) and otherwise follows its transcript; those the native verifier rejects must not satisfy the circuit; non-trivial: natively rejected", 1000, 14000, bodyC02cheat)
}

func bodyC02cheat(t *T, h *H) {
	cfg := drawConfig(t, false)
	ch := drawCheat(t, cfg)
	if !usable(ch, cfg) {
		ch.Kind = "gate-drop"
	}
	ct, r := buildProof(t, cfg, ch)
	want := ref.Verify(ct.C, r.VD, r.Proof, r.PIs)
	if want == nil {
		h.Case(false, ch.Kind+"/without effect", "")
		return
	}
	if err := run(eng.Opt{Lenient: true}, whole(ct.C, r.VD, r.Proof, r.PIs)); err == nil {
		t.Fatalf("cheat %s (A=%d B=%d) is accepted; the native verifier says: %v\n%s", ch.Kind, ch.A, ch.B, want, descCfg(ct.C, len(r.PIs)))
	}
	h.Case(true, ch.Kind, descCfg(ct.C, len(r.PIs)), cfg.Seed, ch)
}

// tamper changes one value of a proof, its public inputs or the verifier data.
func tamper(t *T, r *ref.Rng, c *ref.Common, vd *ref.VerifierData, p *ref.Proof, pis *[]uint64) string {
	fe := func(xs []fr.Element, what string) string {
		i := intn(t, len(xs), "i")
		if rapid.Bool().Draw(t, "swap") {
			j := intn(t, len(xs), "j")
			xs[i], xs[j] = xs[j], xs[i]
		} else {
			xs[i] = rfr(r)
		}
		return what
	}
	q := &p.Fri.Queries[intn(t, len(p.Fri.Queries), "query")]
	switch k := intn(t, 15, "what"); k {
	case 0:
		return fe(p.WiresCap, "wires cap")
	case 1:
		return fe(p.ZsCap, "zs cap")
	case 2:
		return fe(p.QuotientCap, "quotient cap")
	case 3:
		return fe(vd.ConstantsSigmasCap, "constants cap")
	case 4:
		vd.Digest = rfr(r)
		return "digest"
	case 5:
		n, ls := p.Openings.Lists()
		i := intn(t, len(ls), "list")
		if len(*ls[i]) > 0 {
			j := intn(t, len(*ls[i]), "i")
			(*ls[i])[j] = ref.EAdd((*ls[i])[j], nzE(r))
		}
		return n[i]
	case 6:
		if len(p.Fri.CommitCaps) > 0 {
			return fe(p.Fri.CommitCaps[intn(t, len(p.Fri.CommitCaps), "layer")], "commit cap")
		}
		return "none"
	case 7:
		i := intn(t, len(p.Fri.FinalPoly), "i")
		p.Fri.FinalPoly[i] = ref.EAdd(p.Fri.FinalPoly[i], nzE(r))
		return "final"
	case 8:
		p.Fri.PowWitness = ref.Add(p.Fri.PowWitness, nz(r))
		return "pow witness"
	case 9:
		if len(*pis) > 0 {
			i := intn(t, len(*pis), "i")
			(*pis)[i] = ref.Add((*pis)[i], nz(r))
			return "public input"
		}
		*pis = append(*pis, 0)
		return "public input added"
	case 10:
		if len(*pis) > 0 && rapid.Bool().Draw(t, "drop") {
			*pis = (*pis)[:len(*pis)-1]
			return "public input dropped"
		}
		*pis = append(*pis, 0)
		return "public input added"
	case 11:
		tr := intn(t, 4, "tree")
		l := q.Initial[tr].Leaf
		i := intn(t, len(l), "i")
		l[i] = ref.Add(l[i], nz(r))
		return fmt.Sprint("leaf", tr)
	case 12:
		tr := intn(t, 4, "tree")
		if len(q.Initial[tr].Siblings) > 0 {
			return fe(q.Initial[tr].Siblings, fmt.Sprint("sibling", tr))
		}
		return "none"
	case 13:
		if len(q.Steps) > 0 {
			s := q.Steps[intn(t, len(q.Steps), "layer")]
			i := intn(t, len(s.Evals), "i")
			s.Evals[i] = ref.EAdd(s.Evals[i], nzE(r))
			return "step eval"
		}
		return "none"
	default:
		if len(q.Steps) > 0 {
			s := q.Steps[intn(t, len(q.Steps), "layer")]
			if len(s.Siblings) > 0 {
				return fe(s.Siblings, "step sibling")
			}
		}
		return "none"
	}
}

func TestC02_tamper(t *testing.T) {
	Section(t, "valid proofs in which one value (of the proof, the public inputs or the verifier data) is changed; verdict compared with the native verifier; non-trivial: natively rejected", 600, 9000, bodyC02tamper)
}

func bodyC02tamper(t *T, h *H) {
	cfg := drawConfig(t, false)
	ct, r := buildProof(t, cfg, prove.Cheat{})
	var what string
	if rapid.IntRange(0, 9).Draw(t, "foreign") == 9 { // a proof of another circuit of the same shape
		other := *cfg
		other.Seed++
		_, r2 := buildProof(t, &other, prove.Cheat{})
		r2.VD = r.VD
		if rapid.Bool().Draw(t, "pis") {
			r2.PIs = r.PIs
		}
		r, what = r2, "foreign proof"
	} else {
		what = tamper(t, ref.NewRng(seed(t)), ct.C, r.VD, r.Proof, &r.PIs)
	}
	want := ref.Verify(ct.C, r.VD, r.Proof, r.PIs)
	got := run(eng.Opt{Lenient: want != nil}, whole(ct.C, r.VD, r.Proof, r.PIs))
	if (want == nil) != (got == nil) {
		t.Fatalf("%s: native verifier says %v, the circuit says %v\n%s", what, want, got, descCfg(ct.C, len(r.PIs)))
	}
	h.Case(want != nil, fmt.Sprintf("%s/%v", what, want == nil), descCfg(ct.C, len(r.PIs)), cfg.Seed)
}

func TestC02_forge(t *testing.T) {
	Section(t, "proofs of the cheating prover together with forged hints: every failing equality is repaired by forging the hint behind it (up to 10 rounds), and hint calls are forged at random; must never be satisfied; one evaluation per run; non-trivial: all", 80, 1500, bodyC02forge)
}

func bodyC02forge(t *T, h *H) {
	cfg := drawConfig(t, false)
	cfg.Queries = 1
	ch := drawCheat(t, cfg)
	if !usable(ch, cfg) {
		ch.Kind = "final"
	}
	ct, r := buildProof(t, cfg, ch)
	if ref.Verify(ct.C, r.VD, r.Proof, r.PIs) == nil {
		return
	}
	f := whole(ct.C, r.VD, r.Proof, r.PIs)
	bad := func(how string) {
		t.Fatalf("%s makes a false proof (%s A=%d B=%d) accepted\n%s", how, ch.Kind, ch.A, ch.B, descCfg(ct.C, len(r.PIs)))
	}
	repair(t, h, eng.Native, 10, f, bad)
	n, _ := attackAll(t, eng.Native, 3, f, bad)
	h.Evals(n)
	h.Case(true, ch.Kind, descCfg(ct.C, len(r.PIs)), cfg.Seed, ch)
}

// The steps of the verifier, each against provers that break exactly that step.
func TestC02_steps(t *testing.T) {
	Section(t, "single steps of verification (vanishing identity with a term left out or one round wrong, FRI consistency, authentication paths, shapes, forged field operations and hashes), each against claims that break exactly that step; see C04, C07, C13, C14, C16, C21; non-trivial: as there", 4000, 60000, func(t *T, h *H) {
		switch pick(t, []string{"plonk", "plonk", "fri", "fri", "path", "path", "shape", "base", "ext", "perm", "plonkforge", "rounds"}, "step") {
		case "plonk":
			bodyC13identity(t, h)
		case "fri":
			bodyC14fri(t, h)
		case "path":
			bodyC21path(t, h)
		case "rounds":
			if intn(t, 3, "rarely") == 2 {
				bodyRounds(t, h, pick(t, []func(*T, *friCase) string{breakFri, breakPath}, "altered"))
			}
		case "shape":
			bodyC16shape(t, h)
		case "base":
			bodyC04base(t, h)
		case "ext":
			bodyC04ext(t, h)
		case "perm":
			if rapid.IntRange(0, 9).Draw(t, "rarely") == 9 {
				bodyC07forge(t, h)
			}
		case "plonkforge":
			if rapid.IntRange(0, 9).Draw(t, "rarely") == 9 {
				bodyC13forge(t, h)
			}
		}
	})
}

// ------------------------------------------------------------------ C18

// limbRef names one Goldilocks element of a proof.
type limbRef struct {
	name string
	v    *gl.Variable
}

// limbs lists the proof elements that can be replaced without touching any commitment.
func limbs(p *variables.Proof) (o []limbRef) {
	qe := func(name string, xs []gl.QuadraticExtensionVariable) {
		for i := range xs {
			for l := 0; l < 2; l++ {
				o = append(o, limbRef{fmt.Sprintf("%s/%d", name, l), &xs[i][l]})
			}
		}
	}
	qe("constants", p.Openings.Constants)
	qe("sigmas", p.Openings.PlonkSigmas)
	qe("wires", p.Openings.Wires)
	qe("zs", p.Openings.PlonkZs)
	qe("zs_next", p.Openings.PlonkZsNext)
	qe("partial_products", p.Openings.PartialProducts)
	qe("quotient", p.Openings.QuotientPolys)
	qe("final", p.OpeningProof.FinalPoly.Coeffs)
	o = append(o, limbRef{"pow witness", &p.OpeningProof.PowWitness})
	return
}

// unchecked is the verifier without the range check of the proof, composed from the same parts.
func unchecked(c *ref.Common, vd *ref.VerifierData, pis []uint64, mk func() variables.Proof) func(api frontend.API) {
	return func(api frontend.API) {
		cd := conv.Common(c)
		v := verifier.NewVerifierChip(api, cd)
		p := mk()
		vdv := conv.Engine.VD(vd)
		pih := v.GetPublicInputsHash(conv.Engine.Gls(pis))
		ch := v.GetChallenges(p, pih, vdv)
		plonk.NewPlonkChip(api, cd).Verify(ch, p.Openings, pih)
		fc := fri.NewChip(api, &cd, &cd.FriParams)
		fc.VerifyFriProof(fc.GetInstance(ch.PlonkZeta), fc.ToOpenings(p.Openings), &ch.FriChallenges,
			[]variables.FriMerkleCap{vdv.ConstantSigmasCap, p.WiresCap, p.PlonkZsPartialProductsCap, p.QuotientPolysCap}, &p.OpeningProof)
	}
}

// drawK draws what is added to a canonical value: a multiple of p.
func drawK(t *T) *big.Int {
	k := big.NewInt(1)
	switch intn(t, 12, "k") {
	case 3, 6, 7:
		k.SetUint64(1 + rapid.Uint64Range(1, 1000).Draw(t, "small"))
	case 4, 8:
		k.Lsh(k, uint(uni(t, 1, 60, "shift")))
	case 5:
		k.SetInt64(-1)
	}
	return k.Mul(k, eng.P)
}

func TestC18_encoding(t *testing.T) {
	Section(t, "valid proofs, of random circuits and of circuits all of whose polynomials are constant (so that elements are small and value+p still fits 64 bits), with one Goldilocks element replaced by value + k*p; leaf and folding elements are committed in that form by the prover; must be rejected; non-trivial: the same proof is accepted when the range check of the proof is left out, i.e. nothing else notices", 700, 10000, bodyC18encoding)
}

func bodyC18encoding(t *T, h *H) {
	cfg := drawConfig(t, false)
	cfg.Queries = uni(t, 1, 3, "queries")
	if cfg.Flat = rapid.IntRange(0, 2).Draw(t, "flat") > 0; cfg.Flat {
		has := false
		for _, g := range cfg.Gates {
			_, ok := g.(ref.Noop)
			has = has || ok
		}
		if !has {
			cfg.Gates = append(cfg.Gates, ref.Noop{})
		}
		switch pick(t, []int{0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3}, "layer") {
		case 1:
			cfg.DegreeB, cfg.Arities, cfg.RateB = 4, []int{4}, 4
		case 2:
			cfg.DegreeB, cfg.Arities, cfg.RateB = 8, []int{4, 4}, 4
		case 3:
			if intn(t, 3, "three") == 2 {
				threeLayers(cfg)
			}
		}
	}
	if intn(t, 15, "many") == 14 { // beyond the default configurations
		cfg.Queries = uni(t, 20, 60, "queries")
		if rapid.Bool().Draw(t, "wide") {
			cfg.Queries, cfg.ExtraW = 2, uni(t, 20, 150, "extraWires")
		}
	}
	k := drawK(t)
	var kf fr.Element
	kf.SetBigInt(k)
	ch := prove.Cheat{}
	committed := rapid.Bool().Draw(t, "committed")
	if committed {
		ch = prove.Cheat{Kind: "noncanon", A: intn(t, 4+len(cfg.Arities), "tree"), B: intn(t, 1<<16, "column"), R: seed(t), K: kf}
		if len(cfg.Arities) > 0 && rapid.Bool().Draw(t, "folding") {
			ch.A = 4 + intn(t, len(cfg.Arities), "foldingLayer")
		}
	}
	ct, r := buildProof(t, cfg, ch)
	if committed && len(r.Bumps) == 0 {
		h.Case(false, "no query hit", "")
		return
	}
	if err := ref.Verify(ct.C, r.VD, r.Proof, r.PIs); err != nil && !committed {
		panic("HARNESS: " + err.Error())
	}
	var what string
	pickLimb := -1
	small := false
	mk := func() variables.Proof {
		p := conv.Engine.Proof(r.Proof)
		bump := func(v *gl.Variable) {
			x := eng.Get(v.Limb)
			x.Add(x, k)
			x.Mod(x, eng.N)
			small = x.BitLen() <= 64
			v.Limb = eng.B(x)
		}
		if committed {
			for _, b := range r.Bumps {
				q := p.OpeningProof.QueryRoundProofs[b.Query]
				if b.Tree < 4 {
					what = fmt.Sprintf("leaf%d", b.Tree)
					bump(&q.InitialTreesProof.EvalsProofs[b.Tree].Elements[b.Col])
				} else {
					what = fmt.Sprintf("step%d eval/%d", b.Tree-4, b.Col%2)
					bump(&q.Steps[b.Tree-4].Evals[b.Col/2][b.Col%2])
				}
			}
		} else {
			ls := limbs(&p)
			if pickLimb < 0 { // every class equally often
				var names []string
				by := map[string][]int{}
				for i, l := range ls {
					if by[l.name] == nil {
						names = append(names, l.name)
					}
					by[l.name] = append(by[l.name], i)
				}
				is := by[pick(t, names, "class")]
				pickLimb = is[intn(t, len(is), "element")]
			}
			what = ls[pickLimb].name
			bump(ls[pickLimb].v)
		}
		return p
	}
	mk()
	f := func(api frontend.API) {
		verifier.NewVerifierChip(api, conv.Common(ct.C)).Verify(mk(), conv.Engine.Gls(r.PIs), conv.Engine.VD(r.VD))
	}
	m := eng.Native
	if intn(t, 40, "plain") == 39 {
		m = eng.Plain
	}
	if err := run(eng.Opt{Mode: m, Lenient: true}, f); err == nil {
		t.Fatalf("%s presented as value + %v is accepted [%v]\n%s", what, k, m, descCfg(ct.C, len(r.PIs)))
	}
	nontrivial := run(eng.Opt{Mode: eng.Native, Lenient: true}, unchecked(ct.C, r.VD, r.PIs, mk)) == nil
	h.Case(nontrivial, fmt.Sprintf("%s/fits64=%v/only-range-check=%v", what, small, nontrivial), descCfg(ct.C, len(r.PIs)), cfg.Seed, k)
}

func TestC18_forge(t *testing.T) {
	Section(t, "as encoding, with the hint calls of the proof's range checks forged; must be rejected; one evaluation per run; non-trivial: all", 60, 1200, func(t *T, h *H) {
		cfg := drawConfig(t, false)
		cfg.Queries, cfg.Flat, cfg.Gates = 1, true, []ref.Gate{ref.Noop{}}
		ct, r := buildProof(t, cfg, prove.Cheat{})
		k := drawK(t)
		p0 := conv.Engine.Proof(r.Proof)
		n := intn(t, len(limbs(&p0)), "element")
		what := ""
		f := func(api frontend.API) {
			p := conv.Engine.Proof(r.Proof)
			l := limbs(&p)[n]
			what = l.name
			x := eng.Get(l.v.Limb)
			l.v.Limb = eng.B(x.Add(x, k))
			verifier.NewVerifierChip(api, conv.Common(ct.C)).Verify(p, conv.Engine.Gls(r.PIs), conv.Engine.VD(r.VD))
		}
		// the range check of the element is the hint call that sees its value
		bad := func(how string) {
			t.Fatalf("%s: %s presented as value + %v is accepted\n%s", how, what, k, descCfg(ct.C, len(r.PIs)))
		}
		runs, _ := attackAll(t, eng.Native, 12, f, bad)
		h.Evals(runs)
		h.Case(true, what, descCfg(ct.C, len(r.PIs)), cfg.Seed, k)
	})
}
