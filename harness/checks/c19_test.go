package checks

import (
	"fmt"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// transcript is one instance of what the challenges are derived from.
type transcript struct {
	c   *ref.Common
	pih [4]uint64
	vd  *ref.VerifierData
	p   *ref.Proof
}

func randF(r *ref.Rng) fr.Element { return c15{r}.f() }
func randFs(r *ref.Rng, n int) []fr.Element {
	o := make([]fr.Element, n)
	for i := range o {
		o[i] = randF(r)
	}
	return o
}

func drawTranscript(t *T) *transcript {
	c := drawFriCommon(t, friOpt{layers: -1, maxQueries: 30})
	c.NumWires = uni(t, 1, 30, "wires")
	c.NumRouted = uni(t, 1, 20, "routed")
	c.NumChallenges = uni(t, 1, 5, "challenges")
	if intn(t, 15, "wide") == 14 { // beyond the default configurations
		c.NumWires, c.NumRouted = uni(t, 31, 260, "wires"), uni(t, 21, 120, "routed")
		c.NumQueries = uni(t, 31, 120, "queries")
	}
	c.Gates = []ref.Gate{ref.Noop{}}
	c.SelectorIndices, c.Groups = []int{0}, [][2]int{{0, 1}}
	for i := 0; i < c.NumRouted; i++ {
		c.KIs = append(c.KIs, uint64(i+1))
	}
	r := ref.NewRng(seed(t))
	capLen := 16
	s := &transcript{c: c, vd: &ref.VerifierData{randFs(r, capLen), randF(r)}}
	copy(s.pih[:], r.Fs(4))
	K := c.NumChallenges
	p := &ref.Proof{WiresCap: randFs(r, capLen), ZsCap: randFs(r, capLen), QuotientCap: randFs(r, capLen)}
	p.Openings = ref.Openings{r.Es(c.NumConstants), r.Es(c.NumRouted), r.Es(c.NumWires), r.Es(K), r.Es(K), r.Es(K * c.NumPartialProducts), r.Es(K * c.Q)}
	for range c.Arities {
		p.Fri.CommitCaps = append(p.Fri.CommitCaps, randFs(r, capLen))
	}
	p.Fri.FinalPoly = r.Es(c.FinalLen())
	p.Fri.PowWitness = r.F()
	s.p = p
	return s
}

func (s *transcript) String() string {
	c := s.c
	return fmt.Sprintf("challenges %d queries %d layers %d final %d openings c%d s%d w%d pp%d q%d", c.NumChallenges, c.NumQueries, len(c.Arities),
		len(s.p.Fri.FinalPoly), len(s.p.Openings.Constants), len(s.p.Openings.Sigmas), len(s.p.Openings.Wires), len(s.p.Openings.PartialProducts), len(s.p.Openings.Quotient))
}

func (s *transcript) clone() *transcript { return &transcript{s.c, s.pih, s.vd.Clone(), s.p.Clone()} }

// chGroups are the challenges in the order they are drawn.
var chGroups = []string{"betas", "gammas", "alphas", "zeta", "fri alpha", "fri betas", "pow response", "query indices"}

func refGroups(c *ref.Challenges) [][]uint64 {
	return [][]uint64{c.Betas, c.Gammas, c.Alphas, c.Zeta[:], c.Fri.Alpha[:], flat(c.Fri.Betas), {c.Fri.Pow}, c.Fri.Indices}
}
func gotGroups(c *variables.ProofChallenges) [][]gl.Variable {
	var fb []gl.Variable
	for _, b := range c.FriChallenges.FriBetas {
		fb = append(fb, b[0], b[1])
	}
	return [][]gl.Variable{c.PlonkBetas, c.PlonkGammas, c.PlonkAlphas, {c.PlonkZeta[0], c.PlonkZeta[1]},
		{c.FriChallenges.FriAlpha[0], c.FriChallenges.FriAlpha[1]}, fb, {c.FriChallenges.FriPowResponse}, c.FriChallenges.FriQueryIndices}
}

func (s *transcript) want() [][]uint64 { return refGroups(ref.GetChallenges(s.c, s.pih, s.vd, s.p)) }

func (s *transcript) circuit(out *[][]gl.Variable) func(api frontend.API) {
	return func(api frontend.API) {
		v := verifier.NewVerifierChip(api, conv.Common(s.c))
		ch := v.GetChallenges(conv.Engine.Proof(s.p), conv.Engine.Hash(s.pih), conv.Engine.VD(s.vd))
		*out = gotGroups(&ch)
	}
}

func (s *transcript) agree(t *T, what string, m eng.Mode) [][]uint64 {
	var got [][]gl.Variable
	accept(t, m, "challenges of "+s.String(), s.circuit(&got))
	want := s.want()
	s.same(t, what, got, want)
	return want
}

func (s *transcript) same(t *T, what string, got [][]gl.Variable, want [][]uint64) {
	for g := range chGroups {
		if len(got[g]) != len(want[g]) {
			t.Fatalf("%s %v: %d %s, want %d", what, s, len(got[g]), chGroups[g], len(want[g]))
		}
		for k := range want[g] {
			if x, ok := conv.RdGl(got[g][k]); !ok || x != want[g][k] {
				t.Fatalf("%s %v: %s[%d] = %v, Plonky2 derives %d", what, s, chGroups[g], k, eng.Get(got[g][k].Limb), want[g][k])
			}
		}
	}
}

// alter changes one component of the transcript; first is the first challenge group drawn after it.
func (s *transcript) alter(t *T) (what string, first int) {
	r := s
	el := func(x *uint64) { *x = (*x + 1 + seed(t)%(ref.P-1)) % ref.P }
	fe := func(x *fr.Element) {
		var d fr.Element
		d.SetUint64(1)
		if intn(t, 2, "high") == 1 { // only the topmost bits of the digest differ
			two := fr.NewElement(2)
			for i := 0; i < 240; i++ {
				d.Mul(&d, &two)
			}
		}
		x.Add(x, &d)
	}
	cap := func(xs []fr.Element) int { i := intn(t, len(xs), "entry"); fe(&xs[i]); return i }
	exts := func(xs []ref.E) int { i := intn(t, len(xs), "entry"); el(&xs[i][intn(t, 2, "limb")]); return i }
	switch intn(t, 9, "component") {
	case 0:
		fe(&r.vd.Digest)
		return "circuit digest", 0
	case 1:
		i := intn(t, 4, "limb")
		el(&r.pih[i])
		return fmt.Sprintf("public-inputs hash limb %d", i), 0
	case 2:
		return fmt.Sprintf("wires cap %d", cap(r.p.WiresCap)), 0
	case 3:
		return fmt.Sprintf("permutation cap %d", cap(r.p.ZsCap)), 2
	case 4:
		return fmt.Sprintf("quotient cap %d", cap(r.p.QuotientCap)), 3
	case 5:
		names, lists := r.p.Openings.Lists()
		for {
			i := intn(t, len(lists), "list")
			if len(*lists[i]) == 0 {
				i = 2
			}
			return fmt.Sprintf("opening %s %d", names[i], exts(*lists[i])), 4
		}
	case 6:
		if len(r.p.Fri.CommitCaps) == 0 {
			el(&r.p.Fri.PowWitness)
			return "pow witness", 6
		}
		l := intn(t, len(r.p.Fri.CommitCaps), "layer")
		return fmt.Sprintf("layer %d cap %d", l, cap(r.p.Fri.CommitCaps[l])), 100 + l
	case 7:
		return fmt.Sprintf("final coefficient %d", exts(r.p.Fri.FinalPoly)), 6
	}
	el(&r.p.Fri.PowWitness)
	return "pow witness", 6
}

func TestC19_challenges(t *testing.T) {
	Section(t, "random transcripts (1..5 challenge rounds, 1..120 queries, 0..6 folding layers, random caps, openings, final polynomial): every challenge equals Plonky2's; then one component is changed: the circuit's challenges must equal Plonky2's again, those drawn before it unchanged and every group after it changed; non-trivial: all", 500, 12000, bodyC19challenges)
}

func bodyC19challenges(t *T, h *H) {
	s := drawTranscript(t)
	m := eng.Native
	if intn(t, 50, "plain") == 49 {
		m = eng.Plain
	}
	a := s.agree(t, "transcript", m)
	x := s.clone()
	what, first := x.alter(t)
	b := x.agree(t, "after changing "+what, eng.Native)
	eq := func(i int) bool { return fmt.Sprint(a[i]) == fmt.Sprint(b[i]) }
	for g := range chGroups {
		f := first
		if first >= 100 { // a layer's cap: betas of earlier layers stay
			f = 6
			l := first - 100
			if g == 5 {
				if fmt.Sprint(a[5][:2*l]) != fmt.Sprint(b[5][:2*l]) || fmt.Sprint(a[5][2*l:2*l+2]) == fmt.Sprint(b[5][2*l:2*l+2]) {
					t.Fatalf("HARNESS: folding challenges after changing %s", what)
				}
				continue
			}
		}
		if len(a[g]) > 0 && eq(g) != (g < f) {
			t.Fatalf("HARNESS: %s after changing %s", chGroups[g], what)
		}
	}
	h.Case(true, fmt.Sprintf("layers %d/%v", len(s.c.Arities), m), s.String(), what, s.pih)
}

func TestC19_publicinputs(t *testing.T) {
	Section(t, "0..400 public inputs (boundary-heavy): the hash equals Plonky2's and changes with each input, their order and their number; non-trivial: at least one input", 1500, 30000, bodyC19publicinputs)
}

func bodyC19publicinputs(t *T, h *H) {
	n := uni(t, 0, 80, "n")
	if intn(t, 20, "long") == 19 {
		n = uni(t, 81, 400, "n")
	}
	pis := make([]uint64, n)
	r := ref.NewRng(seed(t))
	for i := range pis {
		pis[i] = r.F()
	}
	c := &ref.Common{CapHeight: 4, RateBits: 3, DegreeBits: 3, NumChallenges: 2, NumQueries: 1, NumWires: 4, NumRouted: 2, Q: 2, NumConstants: 1,
		Gates: []ref.Gate{ref.Noop{}}, SelectorIndices: []int{0}, Groups: [][2]int{{0, 1}}, KIs: []uint64{1, 7}, NumPublicInputs: n}
	hash := func(x []uint64) [4]uint64 {
		var o [4]uint64
		accept(t, eng.Native, fmt.Sprintf("hash of %d public inputs", len(x)), func(api frontend.API) {
			hh := verifier.NewVerifierChip(api, conv.Common(c)).GetPublicInputsHash(conv.Engine.Gls(x))
			for i := range o {
				v, ok := conv.RdGl(hh[i])
				if !ok {
					t.Fatalf("hash of %d public inputs: limb %d is not canonical", len(x), i)
				}
				o[i] = v
			}
		})
		if w := ref.HashNoPad(x); w != o {
			t.Fatalf("hash of public inputs %v = %v, Plonky2 has %v", x, o, w)
		}
		return o
	}
	a := hash(pis)
	kind := "empty"
	if n > 0 {
		y := append([]uint64(nil), pis...)
		i := intn(t, n, "at")
		switch k := intn(t, 3, "change"); {
		case k == 1 && i+1 < n && y[i] != y[i+1]:
			y[i], y[i+1] = y[i+1], y[i]
			kind = "swapped"
		case k == 2:
			y = append(y, r.F())
			kind = "one more"
		default:
			y[i] = (y[i] + 1) % ref.P
			kind = "changed"
		}
		if b := hash(y); a == b && !(kind == "one more" && n%8 != 0 && y[n] == 0) {
			t.Fatalf("public inputs %v and %v have the same hash", pis, y)
		}
	}
	h.Case(n > 0, fmt.Sprintf("%s/%d mod 8", kind, n%8), n, a)
}

func TestC19_forge(t *testing.T) {
	Section(t, "hint calls of a transcript forged: an accepted run must still derive Plonky2's challenges; non-trivial: all", 24, 600, bodyC19forge)
}

func bodyC19forge(t *T, h *H) {
	s := drawTranscript(t)
	var got [][]gl.Variable
	want := s.want()
	runs, _ := attackAll(t, eng.Native, 12, s.circuit(&got), func(what string) { s.same(t, what+" accepted:", got, want) })
	h.Evals(runs)
	h.Case(true, "forge", s.String(), s.pih)
}

// the complete verifier uses these challenges: a valid proof is accepted, a changed message is judged as by Plonky2.
func TestC19_whole(t *testing.T) {
	Section(t, "a component of a valid proof changed without recomputing the transcript: the verdict is Plonky2's; non-trivial: rejected natively", 60, 1500, bodyC02tamper)
}

func TestC19_accepted(t *testing.T) {
	Section(t, "valid random proofs: accepted with the challenges Plonky2 derives; non-trivial: as for C01", 60, 1500, bodyC01random)
}
