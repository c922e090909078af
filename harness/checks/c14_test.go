package checks

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/ref"
)

// breakFri alters one thing of the claim. Where possible everything else is repaired, so that exactly
// one check of the native verifier can notice.
func breakFri(t *T, f *friCase) string {
	r := ref.NewRng(seed(t))
	q := intn(t, f.c.NumQueries, "query")
	L := len(f.c.Arities)
	kinds := []string{"leaf", "leaf", "opening", "opening-next", "alpha", "zeta", "final", "pow", "index-low", "index-high", "leaf-kept"}
	if L > 0 {
		kinds = append(kinds, "eval", "eval", "eval", "eval-at", "eval-kept", "beta", "last-eval", "fold-skip")
	}
	kind := pick(t, kinds, "break")
	l := 0
	if L > 0 {
		l = intn(t, L, "layer")
	}
	switch kind {
	case "leaf": // a leaf element of one query; its Merkle root is recomputed
		tr := intn(t, 4, "tree")
		lf := f.p.Queries[q].Initial[tr].Leaf
		i := intn(t, len(lf), "i")
		lf[i] = ref.Add(lf[i], nz(r))
		f.setInitialRoot(q, tr)
		kind += fmt.Sprint(tr)
	case "leaf-kept": // two leaf elements compensated: still accepted natively
		if f.c.NumWires >= 3 {
			lf := f.p.Queries[q].Initial[1].Leaf
			i := 2 + intn(t, len(lf)-2, "i")
			before, e1 := f.combine(q)
			lf[i] = ref.Add(lf[i], nz(r))
			after, e2 := f.combine(q)
			if e1 != nil || e2 != nil {
				t.Skip("degenerate")
			}
			f.addCombine(q, ref.ESub(before, after), 0, 1)
			f.setInitialRoot(q, 1)
		}
	case "opening":
		i := intn(t, len(f.o[0]), "i")
		f.o[0][i] = ref.EAdd(f.o[0][i], nzE(r))
	case "opening-next":
		i := intn(t, len(f.o[1]), "i")
		f.o[1][i] = ref.EAdd(f.o[1][i], nzE(r))
	case "alpha":
		f.ch.Alpha = ref.EAdd(f.ch.Alpha, nzE(r))
	case "beta":
		f.ch.Betas[l] = ref.EAdd(f.ch.Betas[l], nzE(r))
	case "zeta":
		f.zeta = ref.EAdd(f.zeta, nzE(r))
	case "final":
		i := intn(t, len(f.p.FinalPoly), "i")
		f.p.FinalPoly[i] = ref.EAdd(f.p.FinalPoly[i], nzE(r))
	case "pow":
		b := uint(f.c.PowBits)
		if b > 0 {
			switch intn(t, 3, "powKind") {
			case 0: // the smallest response that misses a zero
				f.ch.Pow = 1 << (64 - b)
			case 1:
				f.ch.Pow = f.ch.Pow | 1<<(63-uint(intn(t, int(b), "bit")))
			default:
				f.ch.Pow = r.U64()
			}
			f.ch.Pow %= ref.P
		}
	case "index-low": // another position, everything else kept
		f.ch.Indices[q] ^= 1 << uint(intn(t, f.lde(), "bit"))
		f.ch.Indices[q] %= ref.P
	case "index-high": // bits above the domain are irrelevant natively
		b := uint(f.lde())
		lowBits := f.index(q)
		x := r.U64()>>b<<b | lowBits
		if x < ref.P {
			f.ch.Indices[q] = x
		}
	case "eval": // an evaluation off the queried position
		ev := f.p.Queries[q].Steps[l].Evals
		j := (f.within(q, l) + 1 + intn(t, len(ev)-1, "j")) % len(ev)
		ev[j] = ref.EAdd(ev[j], nzE(r))
		f.setStepRoot(q, l)
	case "eval-at": // the queried evaluation, with the folded value kept: only the consistency check sees it
		ev := f.p.Queries[q].Steps[l].Evals
		w := f.within(q, l)
		j := (w + 1 + intn(t, len(ev)-1, "j")) % len(ev)
		before := f.folded(q, l)
		ev[w] = ref.EAdd(ev[w], nzE(r))
		lg := f.lagrange(q, l, j)
		if ref.EIsZero(lg) {
			t.Skip("degenerate")
		}
		ev[j] = ref.EAdd(ev[j], ref.EDiv(ref.ESub(before, f.folded(q, l)), lg))
		f.setStepRoot(q, l)
	case "eval-kept": // two evaluations compensated: still accepted natively
		ev := f.p.Queries[q].Steps[l].Evals
		w := f.within(q, l)
		i := (w + 1) % len(ev)
		j := (w + 2 + intn(t, len(ev)-2, "j")) % len(ev)
		before := f.folded(q, l)
		ev[i] = ref.EAdd(ev[i], nzE(r))
		lg := f.lagrange(q, l, j)
		if ref.EIsZero(lg) || j == w || i == j {
			t.Skip("degenerate")
		}
		ev[j] = ref.EAdd(ev[j], ref.EDiv(ref.ESub(before, f.folded(q, l)), lg))
		f.setStepRoot(q, l)
	case "last-eval": // only the final polynomial check of one query sees it
		ev := f.p.Queries[q].Steps[L-1].Evals
		j := (f.within(q, L-1) + 1 + intn(t, len(ev)-1, "j")) % len(ev)
		ev[j] = ref.EAdd(ev[j], nzE(r))
		f.setStepRoot(q, L-1)
	case "fold-skip": // the next layer continues from another value than the folded one
		if l+1 < L {
			ev := f.p.Queries[q].Steps[l+1].Evals
			w := f.within(q, l+1)
			j := (w + 1) % len(ev)
			before := f.folded(q, l+1)
			ev[w] = ref.EAdd(ev[w], nzE(r))
			lg := f.lagrange(q, l+1, j)
			if ref.EIsZero(lg) {
				t.Skip("degenerate")
			}
			ev[j] = ref.EAdd(ev[j], ref.EDiv(ref.ESub(before, f.folded(q, l+1)), lg))
			f.setStepRoot(q, l+1)
		}
	}
	return kind
}

func TestC14_fri(t *testing.T) {
	Section(t, "FRI claims consistent by construction (0..6 folding layers, degree up to 2^29, rates up to 2^10, 1..4 queries, oracle sizes 2..14 and up to 260, proof-of-work 0..60 bits), then at most one value altered with the rest repaired; verdict compared with the native verifier; non-trivial: an altered claim, or an unaltered one with a folding layer", 4000, 60000, bodyC14fri)
}

func bodyC14fri(t *T, h *H) {
	c := drawFriCommon(t, friOpt{layers: -1, maxQueries: 4})
	f := buildFri(t, c)
	what := "honest"
	if rapid.IntRange(0, 4).Draw(t, "break?") != 0 {
		what = breakFri(t, f)
	}
	ok := f.agree(t, friMode(t), what)
	h.Case(what != "honest" || len(c.Arities) > 0, fmt.Sprintf("%s/%v", what, ok), f.String(), f.zeta)
}

// Many query rounds: a few authenticated positions are queried again and again, one altered query comes once.
func TestC14_rounds(t *testing.T) {
	Section(t, "claims with 5..90 query rounds over 2..15 authenticated positions (0..2 folding layers); at most one round, at a drawn place, is altered; verdict compared with the native verifier; non-trivial: an altered claim", 400, 8000, bodyC14rounds)
}

func bodyC14rounds(t *T, h *H) { bodyRounds(t, h, breakFri) }

func bodyRounds(t *T, h *H, alter func(*T, *friCase) string) {
	c := drawFriCommon(t, friOpt{layers: pick(t, []int{0, 0, 0, 1, 2}, "layers"), maxQueries: 4, tiny: true})
	c.NumQueries = uni(t, 2, 6, "positions")
	f := buildFri(t, c)
	what := "honest"
	if rapid.IntRange(0, 4).Draw(t, "break?") != 0 {
		what = alter(t, f)
	}
	n := pick(t, []int{5, 12, 28, 29, 30, 33, 50, 64, 65, 84, 90}, "rounds")
	if len(c.Arities) > 0 && n > 34 {
		n = 34
	}
	// the query that was altered is the one that differs; find it by its own verdict, and let it come once
	bad := -1
	if f.ref() != nil {
		for q := range f.p.Queries {
			one := f.only([]int{q})
			if one.ref() != nil {
				bad = q
			}
		}
	}
	var order []int
	at := intn(t, n, "place")
	for i := 0; i < n; i++ {
		q := intn(t, c.NumQueries, "q")
		if i == at && bad >= 0 {
			q = bad
		} else if q == bad {
			q = (q + 1) % c.NumQueries
		}
		order = append(order, q)
	}
	g := f.only(order)
	ok := g.agree(t, eng.Native, what)
	h.Case(what != "honest", fmt.Sprintf("%s/%v/%d", what, ok, n), g.String(), g.zeta)
}

// only keeps the listed queries, in that order.
func (f *friCase) only(qs []int) *friCase {
	g := f.clone()
	c := *f.c
	c.NumQueries = len(qs)
	g.c = &c
	g.p.Queries, g.ch.Indices = nil, nil
	for _, q := range qs {
		g.p.Queries = append(g.p.Queries, f.p.Queries[q])
		g.ch.Indices = append(g.ch.Indices, f.ch.Indices[q])
	}
	return g
}

// Challenges that coincide with special points: folding challenge on an evaluation point, zero, one.
func TestC14_special(t *testing.T) {
	Section(t, "folding challenge equal to a point of the queried coset (interpolation shortcut), alpha zero or one, base-field zeta, boundary indices; honest and altered; non-trivial: all", 500, 10000, bodyC14special)
}

func bodyC14special(t *T, h *H) {
	c := drawFriCommon(t, friOpt{layers: pick(t, []int{1, 1, 2}, "layers"), maxQueries: 2})
	f := buildFri(t, c)
	kind := pick(t, []string{"beta-point", "beta-point", "beta-zero", "alpha", "zeta-base", "index"}, "special")
	L := len(c.Arities)
	switch kind {
	case "beta-point":
		q, l := intn(t, c.NumQueries, "q"), L-1
		xs := f.cosetPoints(q, l)
		j := intn(t, len(xs), "point")
		f.ch.Betas[l] = xs[j]
		// the folded value is evaluation j itself: fit a constant final polynomial
		for i := range f.p.FinalPoly {
			f.p.FinalPoly[i] = ref.E{}
		}
		for qq := range f.p.Queries {
			ev := f.p.Queries[qq].Steps[l].Evals
			lg := -1
			for k := range ev {
				if k != f.within(qq, l) && !ref.EIsZero(f.lagrange(qq, l, k)) {
					lg = k
				}
			}
			if qq == q && lg < 0 { // j is the queried position itself: final value must be it
				f.p.FinalPoly[0] = ev[f.within(q, l)]
			}
		}
		for qq := range f.p.Queries {
			ev := f.p.Queries[qq].Steps[l].Evals
			for k := range ev {
				if lg := f.lagrange(qq, l, k); k != f.within(qq, l) && !ref.EIsZero(lg) {
					ev[k] = ref.EAdd(ev[k], ref.EDiv(ref.ESub(f.finalAt(qq), f.folded(qq, l)), lg))
					break
				}
			}
			f.setStepRoot(qq, l)
		}
	case "beta-zero":
		l := intn(t, L, "layer")
		f.ch.Betas[l] = pick(t, []ref.E{{0, 0}, {1, 0}, {ref.P - 1, 0}, {7, 0}}, "beta")
		relink(t, f)
	case "alpha":
		f.ch.Alpha = pick(t, []ref.E{{0, 1}, {ref.P - 1, 0}, {2, 0}, {1, 0}, {0, ref.P - 1}}, "alpha")
		relink(t, f)
	case "zeta-base":
		f.zeta[1] = 0
		relink(t, f)
	case "index":
		q := intn(t, c.NumQueries, "q")
		top := uint64(f.slot(q)) << uint(f.lde()-c.CapHeight)
		f.ch.Indices[q] = top | pick(t, []uint64{0, 1<<uint(f.lde()-c.CapHeight) - 1, (1<<uint(f.lde()-c.CapHeight) - 1) &^ 15, 15 & (1<<uint(f.lde()-c.CapHeight) - 1)}, "low")
		relink(t, f)
	}
	what := "honest"
	if rapid.IntRange(0, 2).Draw(t, "break?") == 0 {
		what = breakFri(t, f)
	}
	ok := f.agree(t, friMode(t), kind+" "+what)
	h.Case(true, fmt.Sprintf("%s/%s/%v", kind, what, ok), f.String(), f.zeta)
}

func relink(t *T, f *friCase) {
	for q := range f.p.Queries {
		if !f.link(q) {
			t.Skip("degenerate")
		}
		f.setRoots(q)
	}
}

func TestC14_forge(t *testing.T) {
	Section(t, "inconsistent FRI claims with hint calls forged: never satisfied; non-trivial: all", 200, 4000, bodyC14forge)
}

func bodyC14forge(t *T, h *H) {
	c := drawFriCommon(t, friOpt{layers: pick(t, []int{0, 1}, "layers"), maxQueries: 1})
	f := buildFri(t, c)
	what := breakFri(t, f)
	if f.ref() == nil {
		return
	}
	bad := func(how string) {
		t.Fatalf("%s makes a false FRI claim (%s) satisfied\n%s", how, what, f)
	}
	runs, _ := attackAll(t, eng.Native, 12, f.circuit, bad)
	repair(t, h, eng.Native, 8, f.circuit, bad)
	h.Evals(runs)
	h.Case(true, what, f.String(), f.zeta)
}
