package checks

import (
	"fmt"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/ref"
)

type frE = fr.Element

// tree names one committed tree of a FRI proof: initial 0..3, then the folding layers.
func (f *friCase) sibs(q, tree int) *[]frE {
	if tree < 4 {
		return &f.p.Queries[q].Initial[tree].Siblings
	}
	return &f.p.Queries[q].Steps[tree-4].Siblings
}
func (f *friCase) capOf(tree int) []frE {
	if tree < 4 {
		return f.caps[tree]
	}
	return f.p.CommitCaps[tree-4]
}
func (f *friCase) setRoot(q, tree int) {
	if tree < 4 {
		f.setInitialRoot(q, tree)
	} else {
		f.setStepRoot(q, tree-4)
	}
}
func (f *friCase) setRootsExcept(q, tree int) {
	for i := 0; i < 4+len(f.c.Arities); i++ {
		if i != tree {
			f.setRoot(q, i)
		}
	}
}
func (f *friCase) treeName(tree int) string {
	if tree < 4 {
		return fmt.Sprintf("initial%d", tree)
	}
	return fmt.Sprintf("layer%d", tree-4)
}

// breakPath alters one thing of one authentication path; all arithmetic stays consistent, so that only
// the Merkle check of that tree can notice.
func breakPath(t *T, f *friCase) string {
	r := ref.NewRng(seed(t))
	q := intn(t, f.c.NumQueries, "query")
	tree := intn(t, 4+len(f.c.Arities), "tree")
	s := f.sibs(q, tree)
	cp := f.capOf(tree)
	slot := f.slot(q)
	kinds := []string{"leaf", "leaf", "cap", "cap-other", "cap-moved", "index-low", "index-top", "leaf-order"}
	if len(*s) > 0 {
		kinds = append(kinds, "sibling", "sibling", "sibling-swap", "order", "order", "sibling-root")
	}
	kind := pick(t, kinds, "break")
	switch kind {
	case "leaf":
		if tree < 4 {
			lf := f.p.Queries[q].Initial[tree].Leaf
			i := intn(t, len(lf), "i")
			lf[i] = ref.Add(lf[i], nz(r))
		} else {
			ev := f.p.Queries[q].Steps[tree-4].Evals
			i := intn(t, len(ev), "i")
			ev[i] = ref.EAdd(ev[i], nzE(r))
		}
		if !f.link(q) {
			t.Skip("degenerate")
		}
		f.setRootsExcept(q, tree)
	case "leaf-order": // two elements of the leaf exchanged
		if tree < 4 {
			lf := f.p.Queries[q].Initial[tree].Leaf
			i, j := intn(t, len(lf), "i"), intn(t, len(lf), "j")
			lf[i], lf[j] = lf[j], lf[i]
		} else {
			ev := f.p.Queries[q].Steps[tree-4].Evals
			i := intn(t, len(ev), "i")
			if rapid.Bool().Draw(t, "limbs") {
				ev[i][0], ev[i][1] = ev[i][1], ev[i][0]
			} else {
				j := intn(t, len(ev), "j")
				ev[i], ev[j] = ev[j], ev[i]
			}
		}
		if !f.link(q) {
			t.Skip("degenerate")
		}
		f.setRootsExcept(q, tree)
	case "sibling":
		i := intn(t, len(*s), "depth")
		if rapid.Bool().Draw(t, "small") {
			one := fr.One()
			(*s)[i].Add(&(*s)[i], &one)
		} else {
			(*s)[i] = rfr(r)
		}
	case "sibling-swap":
		i, j := intn(t, len(*s), "i"), intn(t, len(*s), "j")
		(*s)[i], (*s)[j] = (*s)[j], (*s)[i]
	case "sibling-root": // the top sibling replaced by the selected cap entry
		(*s)[len(*s)-1] = cp[slot]
	case "order": // a root for which one level was hashed in the wrong order
		i := intn(t, len(*s), "depth")
		var idx uint64
		var leaf frE
		if tree < 4 {
			idx, leaf = f.index(q), ref.HashOrNoop(f.p.Queries[q].Initial[tree].Leaf)
		} else {
			idx, leaf = f.coset(q, tree-4), ref.HashOrNoop(flat(f.p.Queries[q].Steps[tree-4].Evals))
		}
		d, _ := ref.MerkleWalk(leaf, idx^1<<uint(i), *s)
		cp[slot] = d
	case "cap":
		if rapid.Bool().Draw(t, "other entry") {
			cp[slot] = cp[(slot+1+intn(t, len(cp)-1, "j"))%len(cp)]
		} else {
			cp[slot] = rfr(r)
		}
	case "cap-other": // unselected entries do not matter to this query
		cp[(slot+1+intn(t, len(cp)-1, "j"))%len(cp)] = rfr(r)
	case "cap-moved": // the root is in the cap, at another position
		j := (slot + 1 + intn(t, len(cp)-1, "j")) % len(cp)
		if rapid.Bool().Draw(t, "one bit") {
			j = slot ^ 1<<uint(intn(t, f.c.CapHeight, "bit"))
		}
		cp[slot], cp[j] = cp[j], cp[slot]
	case "index-low", "index-top": // another index; everything but this tree follows it
		var b int
		if kind == "index-top" {
			b = f.lde() - 1 - intn(t, f.c.CapHeight, "bit")
		} else if d := f.lde() - f.c.CapHeight; d > 0 {
			b = intn(t, d, "bit")
		} else {
			b = intn(t, f.lde(), "bit")
		}
		f.ch.Indices[q] ^= 1 << uint(b)
		if f.ch.Indices[q] >= ref.P {
			t.Skip("index")
		}
		if !f.link(q) {
			t.Skip("degenerate")
		}
		f.setRootsExcept(q, tree)
	}
	return f.treeName(tree) + "/" + kind
}

func TestC21_path(t *testing.T) {
	Section(t, "consistent FRI claims in which one authentication path (tree, depth, index bit, cap entry, leaf element) is altered and everything else recomputed, so that only that tree's Merkle check can notice; verdict compared with hashing the path natively; non-trivial: altered claims", 6000, 80000, bodyC21path)
}

func bodyC21path(t *T, h *H) {
	c := drawFriCommon(t, friOpt{layers: -1, maxQueries: 3, tiny: rapid.Bool().Draw(t, "tiny")})
	f := buildFri(t, c)
	what := "honest"
	if rapid.IntRange(0, 9).Draw(t, "break?") != 9 {
		what = breakPath(t, f)
	}
	ok := f.agree(t, friMode(t), what)
	h.Case(what != "honest", fmt.Sprintf("%s/%v", what, ok), f.String(), f.zeta)
}

// Many query rounds: see C14.
func TestC21_rounds(t *testing.T) {
	Section(t, "claims with 5..90 query rounds (as in C14) in which one round, at a drawn place, has an altered authentication path; verdict compared with hashing the paths natively; non-trivial: an altered claim", 320, 6000, func(t *T, h *H) { bodyRounds(t, h, breakPath) })
}

func TestC21_forge(t *testing.T) {
	Section(t, "claims with one broken authentication path and forged hint calls: never satisfied; non-trivial: all", 160, 2400, bodyC21forge)
}

func bodyC21forge(t *T, h *H) {
	c := drawFriCommon(t, friOpt{layers: pick(t, []int{0, 1}, "layers"), maxQueries: 1, tiny: true})
	f := buildFri(t, c)
	what := breakPath(t, f)
	if f.ref() == nil {
		return
	}
	runs, _ := attackAll(t, eng.Native, 16, f.circuit, func(how string) {
		t.Fatalf("%s makes an unauthentic leaf (%s) accepted\n%s", how, what, f)
	})
	h.Evals(runs)
	h.Case(true, what, f.String(), f.zeta)
}
