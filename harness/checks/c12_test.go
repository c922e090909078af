package checks

import (
	"fmt"
	"testing"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// drawGrouping partitions n gates into contiguous groups.
func drawGrouping(t *T, n int) (idx []int, groups [][2]int) {
	idx = make([]int, n)
	one := rapid.IntRange(0, 3).Draw(t, "oneGroup") == 0
	for s := 0; s < n; {
		e := n
		if !one {
			e = s + uni(t, 1, n-s, "group")
		}
		for i := s; i < e; i++ {
			idx[i] = len(groups)
		}
		groups = append(groups, [2]int{s, e})
		s = e
	}
	return
}

func TestC12_filter(t *testing.T) {
	Section(t, "1..40 drawn gates in drawn selector groups; constants either arbitrary or selecting one gate (other selectors at the unused marker), rows arbitrary or valid for the selected gate; aggregated values compared with the reference; a too small constraint count must be refused; non-trivial: at least two gates and a non-zero aggregate, or a valid selected row", 12000, 240000, bodyC12filter)
}

func bodyC12filter(t *T, h *H) {
	n := uni(t, 1, 9, "gates")
	if intn(t, 25, "many") == 24 {
		n = uni(t, 10, 40, "gates")
	}
	gs := make([]ref.Gate, n)
	nw, nc, num := 0, 0, 0
	for i := range gs {
		gs[i] = drawGate(t, true)
		if rapid.IntRange(0, 9).Draw(t, "heavy") == 9 {
			gs[i] = drawGate(t, false)
		}
		nw, nc, num = max(nw, gs[i].NumWires()), max(nc, gs[i].NumConsts()), max(num, gs[i].NumConstraints())
	}
	idx, groups := drawGrouping(t, n)
	ns := len(groups)
	need := num
	num += uni(t, 0, 2, "slack")
	low := need > 0 && rapid.IntRange(0, 11).Draw(t, "low") == 11
	if low {
		num = uni(t, 0, need-1, "num")
	}
	r := ref.NewRng(seed(t))
	var pih [4]uint64
	for i := range pih {
		pih[i] = r.F()
	}
	kind := pick(t, []string{"free", "selected", "selected", "valid", "unused"}, "kind")
	consts, wires := r.Es(ns+nc), r.Es(nw)
	sel := intn(t, n, "sel")
	if kind != "free" {
		for i := 0; i < ns; i++ {
			consts[i] = ref.EB(1<<32 - 1)
		}
		if kind != "unused" {
			consts[idx[sel]] = ref.EB(uint64(sel))
		} else if ns == 1 {
			consts[0] = ref.EB(uint64(n + r.N(3)))
		}
	}
	if kind == "valid" {
		c, w := r.Fs(nc), r.Fs(nw)
		gs[sel].Fill(r, c, w, pih)
		copy(consts[ns:], lift(c))
		wires = lift(w)
	}
	f := func(api frontend.API) {
		var rg []gates.Gate
		for _, g := range gs {
			rg = append(rg, construct(g))
		}
		sm := conv.Selectors(idx, groups)
		c := gates.NewEvaluateGatesChip(api, rg, uint64(num), sm)
		cv, wv := conv.Engine.Es(consts), conv.Engine.Es(wires)
		want := ref.EvalGateConstraints(gs, idx, groups, max(num, need), consts, wires, pih)[:num]
		for rep := 0; rep < 1+r.N(2); rep++ {
			got, ok := conv.RdEs(c.EvaluateGateConstraints(*gates.NewEvaluationVars(cv, wv, conv.Engine.Hash(pih))))
			if low {
				t.Fatalf("gates %v: constraint count %d below the needed %d was not refused", ids(gs), num, need)
			}
			if !ok || len(got) != len(want) {
				t.Fatalf("%d aggregated constraints (canonical %v), want %d", len(got), ok, len(want))
			}
			for i := range got {
				if got[i] != want[i] {
					t.Fatalf("gates %v groups %v kind %s sel %d: aggregate %d = %v want %v", ids(gs), groups, kind, sel, i, got[i], want[i])
				}
				if kind == "valid" && !ref.EIsZero(got[i]) {
					t.Fatalf("gates %v groups %v: row valid for gate %d, aggregate %d = %v", ids(gs), groups, sel, i, got[i])
				}
			}
		}
	}
	m := pick(t, []eng.Mode{eng.Native, eng.Native, eng.Native, eng.Native, eng.Plain}, "mode")
	if low {
		if err := run(eng.Opt{Mode: m}, f); !eng.IsRefuse(err) {
			t.Fatalf("constraint count %d below the needed %d: %v", num, need, err)
		}
		kind = "low"
	} else {
		accept(t, m, fmt.Sprint("aggregation of ", ids(gs)), f)
	}
	h.Case(n >= 2 && need > 0, fmt.Sprintf("%s/selectors=%d", kind, min(ns, 4)), ids(gs), groups, num, wires)
}

func ids(gs []ref.Gate) (o []string) {
	for _, g := range gs {
		s := g.ID()
		if len(s) > 60 {
			s = s[:60] + "…"
		}
		o = append(o, s)
	}
	return
}

// ------------------------------------------------------------------ C13

// drawPlonk draws a description together with free challenges and openings.
func drawPlonk(t *T) (*ref.Common, *ref.Challenges, *ref.Openings, [4]uint64) {
	n := uni(t, 1, 6, "gates")
	c := &ref.Common{CapHeight: 4, RateBits: 3, NumQueries: 1}
	nc := 0
	for i := 0; i < n; i++ {
		g := drawGate(t, true)
		if rapid.IntRange(0, 15).Draw(t, "heavy") == 15 {
			g = drawGate(t, false)
		}
		c.Gates = append(c.Gates, g)
		c.NumWires, nc, c.NumGateConstraints = max(c.NumWires, g.NumWires()), max(nc, g.NumConsts()), max(c.NumGateConstraints, g.NumConstraints())
	}
	c.SelectorIndices, c.Groups = drawGrouping(t, n)
	c.NumConstants = len(c.Groups) + nc + uni(t, 0, 1, "extraC")
	c.NumChallenges = uni(t, 1, 4, "challenges")
	c.DegreeBits = uni(t, 0, 20, "degreeBits")
	c.Q = uni(t, 1, 9, "Q")
	c.NumPartialProducts = uni(t, 0, 4, "npp")
	c.NumRouted = c.Q*(c.NumPartialProducts+1) - pick(t, []int{0, 0, 1, c.Q - 1, c.Q / 2}, "routedCut")%c.Q
	if intn(t, 20, "wide") == 19 { // beyond the default recursion configuration
		c.NumChallenges, c.DegreeBits = uni(t, 1, 7, "challenges"), uni(t, 0, 31, "degreeBits")
		c.Q, c.NumPartialProducts = uni(t, 1, 33, "Q"), uni(t, 0, 24, "npp")
		c.NumRouted = c.Q*(c.NumPartialProducts+1) - pick(t, []int{0, 0, 1, c.Q - 1, c.Q / 2}, "routedCut")%c.Q
	}
	c.NumWires = max(c.NumWires, c.NumRouted)
	c.NumGateConstraints += uni(t, 0, 1, "extraK")
	r := ref.NewRng(seed(t))
	k := uint64(1)
	rnd := rapid.Bool().Draw(t, "kis")
	for i := 0; i < c.NumRouted; i++ {
		if rnd {
			k = r.F()
		}
		c.KIs = append(c.KIs, k)
		k = ref.Mul(k, 7)
	}
	ch := &ref.Challenges{Betas: r.Fs(c.NumChallenges), Gammas: r.Fs(c.NumChallenges), Alphas: r.Fs(c.NumChallenges)}
	o := &ref.Openings{Constants: r.Es(c.NumConstants), Sigmas: r.Es(c.NumRouted), Wires: r.Es(c.NumWires),
		Zs: r.Es(c.NumChallenges), ZsNext: r.Es(c.NumChallenges), PartialProducts: r.Es(c.NumChallenges * c.NumPartialProducts),
		Quotient: r.Es(c.NumChallenges * c.Q)}
	var pih [4]uint64
	for i := range pih {
		pih[i] = r.F()
	}
	for {
		ch.Zeta = r.E()
		if rapid.IntRange(0, 7).Draw(t, "baseZeta") == 7 {
			ch.Zeta[1] = 0
		}
		if zn := ref.EExp(ch.Zeta, 1<<uint(c.DegreeBits)); zn != ref.EOne && !ref.EIsZero(zn) {
			return c, ch, o, pih
		}
	}
}

// solveQuotient sets chunk j of every round (except skip) so that the identity holds for the vanishing values v.
func solveQuotient(c *ref.Common, ch *ref.Challenges, o *ref.Openings, v []ref.E, j, skip int) {
	zn := ref.EExp(ch.Zeta, 1<<uint(c.DegreeBits))
	for k := range v {
		if k == skip {
			continue
		}
		q := o.Quotient[k*c.Q : (k+1)*c.Q]
		q[j] = ref.E{}
		d := ref.ESub(ref.EDiv(v[k], ref.ESub(zn, ref.EOne)), ref.EPoly(q, zn))
		q[j] = ref.EDiv(d, ref.EExp(zn, uint64(j)))
	}
}

func TestC13_identity(t *testing.T) {
	Section(t, "free descriptions (1..7 challenges, quotient factor 1..33, 0..24 partial products, degree up to 2^31), challenges and openings; the quotient is solved so that the identity holds, then one opening, challenge, KI, constant of the hash, or one whole round is altered (others re-solved), or one vanishing term is left out; verdict compared with the reference; non-trivial: altered cases that the reference rejects, and all satisfied cases", 6000, 120000, bodyC13identity)
}

func bodyC13identity(t *T, h *H) {
	c, ch, o, pih := drawPlonk(t)
	j := intn(t, c.Q, "chunk")
	terms := ref.VanishingTerms(c, ch.Betas, ch.Gammas, ch.Zeta, o, pih)
	solveQuotient(c, ch, o, ref.Vanishing(c, ch, o, pih), j, -1)
	kind := pick(t, []string{"honest", "honest", "opening", "opening", "round", "round", "drop", "challenge", "zeta", "pih"}, "kind")
	r := ref.NewRng(seed(t))
	what := ""
	delta := func() ref.E {
		d := ref.E{1 + r.U64()%(ref.P-1), 0}
		if r.N(2) == 0 {
			d = ref.E{0, d[0]}
		}
		return d
	}
	switch kind {
	case "opening":
		names, ls := o.Lists()
		li := intn(t, len(ls), "list")
		if len(*ls[li]) > 0 {
			i := intn(t, len(*ls[li]), "i")
			(*ls[li])[i] = ref.EAdd((*ls[li])[i], delta())
			what = names[li]
		}
	case "round": // alter something, then repair every round but one
		names, ls := o.Lists()
		li := pick(t, []int{0, 1, 2, 3, 4, 5, 6}, "list")
		skip := intn(t, c.NumChallenges, "skip")
		if li != 6 {
			if len(*ls[li]) > 0 {
				i := intn(t, len(*ls[li]), "i")
				(*ls[li])[i] = ref.EAdd((*ls[li])[i], delta())
			}
			solveQuotient(c, ch, o, ref.Vanishing(c, ch, o, pih), j, skip)
		} else {
			i := skip*c.Q + intn(t, c.Q, "i")
			o.Quotient[i] = ref.EAdd(o.Quotient[i], delta())
		}
		what = fmt.Sprintf("%s/last=%v", names[li], skip == c.NumChallenges-1)
	case "drop": // the prover's identity ignores one term
		i := intn(t, len(terms), "term")
		terms[i] = ref.E{}
		v := make([]ref.E, c.NumChallenges)
		for k := range v {
			v[k] = ref.EPoly(terms, ref.EB(ch.Alphas[k]))
		}
		solveQuotient(c, ch, o, v, j, -1)
	case "challenge":
		l := pick(t, []*[]uint64{&ch.Alphas, &ch.Betas, &ch.Gammas}, "which")
		i := intn(t, len(*l), "i")
		(*l)[i] = ref.Add((*l)[i], 1+r.U64()%(ref.P-1))
	case "zeta":
		ch.Zeta = ref.EAdd(ch.Zeta, delta())
	case "pih":
		i := intn(t, 4, "i")
		pih[i] = ref.Add(pih[i], 1+r.U64()%(ref.P-1))
	}
	want := ref.VerifyPlonk(c, ch, o, pih)
	m := pick(t, []eng.Mode{eng.Native, eng.Native, eng.Native, eng.Native, eng.Plain}, "mode")
	f := func(api frontend.API) {
		plonk.NewPlonkChip(api, conv.Common(c)).Verify(conv.Engine.Challenges(ch), conv.Engine.Openings(o), conv.Engine.Hash(pih))
	}
	got := run(eng.Opt{Mode: m, Lenient: want != nil}, f)
	if (want == nil) != (got == nil) {
		t.Fatalf("kind %s %s: reference says %v, circuit says %v\n%v routed %d Q %d npp %d challenges %d degree %d constants %d constraints %d groups %v",
			kind, what, want, got, ids(c.Gates), c.NumRouted, c.Q, c.NumPartialProducts, c.NumChallenges, c.DegreeBits, c.NumConstants, c.NumGateConstraints, c.Groups)
	}
	h.Case(kind == "honest" || want != nil, fmt.Sprintf("%s/%v", kind, want == nil), what, ids(c.Gates), ch.Zeta, c.Q, c.NumChallenges)
}

func TestC13_forge(t *testing.T) {
	Section(t, "identities that fail in one round, with hint calls forged: never satisfied; non-trivial: all", 400, 8000, bodyC13forge)
}

func bodyC13forge(t *T, h *H) {
	c, ch, o, pih := drawPlonk(t)
	solveQuotient(c, ch, o, ref.Vanishing(c, ch, o, pih), 0, -1)
	i := intn(t, len(o.Quotient), "i")
	// a difference that is small, a multiple of 2^32, or arbitrary
	d := pick(t, []uint64{1, ref.P - 1, 1 << 32, 1<<32 - 1, felt(t, "d")}, "delta")
	o.Quotient[i] = ref.EAdd(o.Quotient[i], ref.E{d, 0})
	if ref.VerifyPlonk(c, ch, o, pih) == nil {
		return
	}
	f := func(api frontend.API) {
		plonk.NewPlonkChip(api, conv.Common(c)).Verify(conv.Engine.Challenges(ch), conv.Engine.Openings(o), conv.Engine.Hash(pih))
	}
	bad := func(what string) {
		t.Fatalf("%s makes a false identity satisfied; gates %v, quotient %d off by %d", what, ids(c.Gates), i, d)
	}
	runs, _ := attackAll(t, eng.Native, 12, f, bad)
	repair(t, h, eng.Native, 8, f, bad)
	h.Evals(runs)
	h.Case(true, "forge", ids(c.Gates), ch.Zeta, i, d)
}
