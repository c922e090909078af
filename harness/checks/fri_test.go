package checks

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// friCase is a FRI claim with freely chosen challenges: it is consistent by construction, with no
// transcript behind it, so that any single step can be broken while all others stay intact.
type friCase struct {
	c    *ref.Common
	zeta ref.E
	o    [2][]ref.E
	ch   *ref.FriChallenges
	caps [][]fr.Element
	p    *ref.FriProof
	r    *ref.Rng
}

func (f *friCase) String() string {
	return fmt.Sprintf("degree 2^%d rate 2^%d cap %d arities %v pow %d queries %d oracles %v final %d indices %v",
		f.c.DegreeBits, f.c.RateBits, f.c.CapHeight, f.c.Arities, f.c.PowBits, f.c.NumQueries, f.c.OracleSizes(), len(f.p.FinalPoly), f.ch.Indices)
}

type friOpt struct {
	layers     int // -1: draw
	arity      int // default 4
	cap        int // default 4
	maxQueries int
	tiny       bool // leaves of at most 3 elements in some trees
}

func drawFriCommon(t *T, o friOpt) *ref.Common {
	if o.arity == 0 {
		o.arity = 4
	}
	if o.cap == 0 {
		o.cap = 4
	}
	L := o.layers
	if L < 0 {
		L = pick(t, []int{0, 0, 1, 1, 1, 1, 2, 2, 3, 4}, "layers")
	}
	if o.layers < 0 && o.arity == 4 && intn(t, 40, "manyLayers") == 39 {
		L = uni(t, 5, 6, "layers")
	}
	c := &ref.Common{CapHeight: o.cap}
	for i := 0; i < L; i++ {
		c.Arities = append(c.Arities, o.arity)
	}
	// DegreeBits = arity*L + log(final), LdeBits - arity*L >= cap
	fin := pick(t, []int{0, 1, 1, 2, 2, 3, 3, 4, 5}, "finalBits")
	if o.layers < 0 && L < 5 && intn(t, 40, "longFinal") == 39 {
		fin = uni(t, 6, 8, "finalBits")
	}
	c.DegreeBits = o.arity*L + fin
	lo := o.cap - fin
	if lo < 1 {
		lo = 1
	}
	c.RateBits = lo
	if rapid.IntRange(0, 2).Draw(t, "deeper") != 0 {
		c.RateBits += uni(t, 0, 6, "rate")
	}
	if c.DegreeBits+c.RateBits > 32 { // the two-adicity of the field
		c.RateBits = max(lo, 32-c.DegreeBits)
	}
	c.PowBits = pick(t, []int{0, 1, 8, 16, 16, 20, 31, 33, 48, 60}, "pow")
	c.NumChallenges = uni(t, 1, 3, "challenges")
	c.NumPartialProducts = uni(t, 0, 3, "npp")
	c.Q = uni(t, 1, 4, "Q")
	c.NumConstants = uni(t, 1, 4, "constants")
	c.NumRouted = uni(t, 1, 8, "routed")
	c.NumWires = uni(t, 2, 14, "wires")
	if o.tiny || rapid.IntRange(0, 3).Draw(t, "tinyOracles") == 3 {
		c.NumConstants, c.NumRouted = 1, uni(t, 1, 2, "routed")
		c.NumWires = uni(t, 2, 3, "wires")
		c.NumChallenges, c.NumPartialProducts, c.Q = 1, uni(t, 0, 2, "npp"), uni(t, 1, 3, "Q")
	}
	if !o.tiny && rapid.IntRange(0, 19).Draw(t, "wideOracles") == 19 { // beyond the default recursion configuration
		c.NumConstants, c.NumRouted, c.NumWires = uni(t, 1, 12, "constants"), uni(t, 60, 150, "routed"), uni(t, 100, 260, "wires")
		c.NumChallenges, c.NumPartialProducts, c.Q = uni(t, 2, 4, "challenges"), uni(t, 5, 20, "npp"), uni(t, 5, 20, "Q")
	}
	c.NumQueries = uni(t, 1, o.maxQueries, "queries")
	return c
}

// fresh pow response with at least bits leading zeros
func powOK(r *ref.Rng, bits int) uint64 {
	x := r.U64() >> uint(bits)
	if bits == 0 {
		x %= ref.P
	}
	if bits > 0 && r.N(3) == 0 {
		x = 1<<uint(64-bits) - 1 - uint64(r.N(3)) // largest allowed
		if x >= ref.P {
			x = ref.P - 1
		}
	}
	return x
}

func flat(es []ref.E) []uint64 {
	var o []uint64
	for _, e := range es {
		o = append(o, e[0], e[1])
	}
	return o
}

func (f *friCase) lde() int           { return f.c.LdeBits() }
func (f *friCase) index(q int) uint64 { return f.ch.Indices[q] & (1<<uint(f.lde()) - 1) }
func (f *friCase) slot(q int) int     { return int(f.index(q) >> uint(f.lde()-f.c.CapHeight)) }
func (f *friCase) coset(q, l int) uint64 { // index of the leaf in layer l
	i := f.index(q)
	for k := 0; k <= l; k++ {
		i >>= uint(f.c.Arities[k])
	}
	return i
}
func (f *friCase) within(q, l int) int {
	i := f.index(q)
	for k := 0; k < l; k++ {
		i >>= uint(f.c.Arities[k])
	}
	return int(i & (1<<uint(f.c.Arities[l]) - 1))
}
func (f *friCase) points() [2]ref.E {
	return [2]ref.E{f.zeta, ref.EScale(f.zeta, ref.RootOfUnity(f.c.DegreeBits))}
}
func (f *friCase) leaves(q int) (o [][]uint64) {
	for _, in := range f.p.Queries[q].Initial {
		o = append(o, in.Leaf)
	}
	return
}
func (f *friCase) combine(q int) (ref.E, error) {
	red := [2]ref.E{ref.EPoly(f.o[0], f.ch.Alpha), ref.EPoly(f.o[1], f.ch.Alpha)}
	return ref.CombineInitial(f.c, f.points(), red, f.leaves(q), f.ch.Alpha, ref.LayerPoint(f.index(q), f.lde(), 0))
}

// layer geometry: bits of the layer's domain and the exponent shift of its coset
func (f *friCase) geom(l int) (bits, shift int) {
	bits = f.lde()
	for k := 0; k < l; k++ {
		bits -= f.c.Arities[k]
		shift += f.c.Arities[k]
	}
	return
}
func (f *friCase) cosetPoints(q, l int) []ref.E {
	bits, shift := f.geom(l)
	a := f.c.Arities[l]
	xs := make([]ref.E, 1<<uint(a))
	for j := range xs {
		xs[j] = ref.EB(ref.LayerPoint(f.coset(q, l)<<uint(a)|uint64(j), bits, shift))
	}
	return xs
}
func (f *friCase) folded(q, l int) ref.E {
	return ref.Interpolate(f.cosetPoints(q, l), f.p.Queries[q].Steps[l].Evals, f.ch.Betas[l])
}

// lagrange returns the coefficient of eval j in the folded value.
func (f *friCase) lagrange(q, l, j int) ref.E {
	ys := make([]ref.E, len(f.p.Queries[q].Steps[l].Evals))
	ys[j] = ref.EOne
	return ref.Interpolate(f.cosetPoints(q, l), ys, f.ch.Betas[l])
}
func (f *friCase) finalAt(q int) ref.E {
	bits, shift := f.geom(len(f.c.Arities))
	i := f.index(q)
	for _, a := range f.c.Arities {
		i >>= uint(a)
	}
	return ref.EPoly(f.p.FinalPoly, ref.EB(ref.LayerPoint(i, bits, shift)))
}

// addCombine changes two wire elements of query q so that the combined evaluation moves by d.
func (f *friCase) addCombine(q int, d ref.E, a, b int) bool {
	n0 := len(f.o[0])
	x := ref.EB(ref.LayerPoint(f.index(q), f.lde(), 0))
	scale := ref.EDiv(ref.EExp(f.ch.Alpha, uint64(f.c.NumChallenges)), ref.ESub(x, f.zeta))
	base := len(f.p.Queries[q].Initial[0].Leaf)
	_ = n0
	A := ref.EMul(scale, ref.EExp(f.ch.Alpha, uint64(base+a)))
	B := ref.EMul(scale, ref.EExp(f.ch.Alpha, uint64(base+b)))
	det := ref.Sub(ref.Mul(A[0], B[1]), ref.Mul(A[1], B[0]))
	if det == 0 {
		return false
	}
	di := ref.Inv(det)
	u := ref.Mul(di, ref.Sub(ref.Mul(d[0], B[1]), ref.Mul(d[1], B[0])))
	v := ref.Mul(di, ref.Sub(ref.Mul(A[0], d[1]), ref.Mul(A[1], d[0])))
	w := f.p.Queries[q].Initial[1].Leaf
	w[a], w[b] = ref.Add(w[a], u), ref.Add(w[b], v)
	return true
}

// setRoots makes every cap entry match the leaf and siblings of query q (which = -1: all trees).
func (f *friCase) setInitialRoot(q, tree int) {
	in := f.p.Queries[q].Initial[tree]
	d, _ := ref.MerkleWalk(ref.HashOrNoop(in.Leaf), f.index(q), in.Siblings)
	f.caps[tree][f.slot(q)] = d
}
func (f *friCase) setStepRoot(q, l int) {
	s := f.p.Queries[q].Steps[l]
	d, _ := ref.MerkleWalk(ref.HashOrNoop(flat(s.Evals)), f.coset(q, l), s.Siblings)
	f.p.CommitCaps[l][f.slot(q)] = d
}
func (f *friCase) setRoots(q int) {
	for i := range f.p.Queries[q].Initial {
		f.setInitialRoot(q, i)
	}
	for l := range f.p.Queries[q].Steps {
		f.setStepRoot(q, l)
	}
}

// link makes query q consistent from its leaves to the final polynomial.
func (f *friCase) link(q int) bool {
	old, err := f.combine(q)
	if err != nil {
		return false
	}
	L := len(f.c.Arities)
	for l := 0; l < L; l++ {
		ev := f.p.Queries[q].Steps[l].Evals
		w := f.within(q, l)
		ev[w] = old
		if l == L-1 { // adjust another evaluation so that the final polynomial is met
			j := (w + 1 + f.r.N(len(ev)-1)) % len(ev)
			lg := f.lagrange(q, l, j)
			if ref.EIsZero(lg) {
				return false
			}
			ev[j] = ref.EAdd(ev[j], ref.EDiv(ref.ESub(f.finalAt(q), f.folded(q, l)), lg))
		}
		old = f.folded(q, l)
	}
	if L == 0 {
		d := ref.ESub(f.finalAt(q), old)
		if !f.addCombine(q, d, 0, 1) {
			return false
		}
	}
	return true
}

func buildFri(t *T, c *ref.Common) *friCase {
	for try := 0; try < 8; try++ {
		r := ref.NewRng(seed(t))
		f := &friCase{c: c, r: r, p: &ref.FriProof{PowWitness: r.F()}}
		f.zeta = r.E()
		f.ch = &ref.FriChallenges{Alpha: r.E(), Betas: r.Es(len(c.Arities)), Pow: powOK(r, c.PowBits)}
		sz := c.OracleSizes()
		n := 0
		for _, s := range sz {
			n += s
		}
		f.o = [2][]ref.E{r.Es(n), r.Es(c.NumChallenges)}
		f.p.FinalPoly = r.Es(c.FinalLen())
		// distinct cap slots, so that every query has roots of its own
		slots := r.N(1 << c.CapHeight)
		lb := f.lde()
		for q := 0; q < c.NumQueries; q++ {
			slot := uint64((slots + q*(1+2*int(f.zeta[0]%7))) % (1 << c.CapHeight))
			low := r.U64() & (1<<uint(lb-c.CapHeight) - 1)
			if r.N(6) == 0 {
				low = 0
			} else if r.N(6) == 0 {
				low = 1<<uint(lb-c.CapHeight) - 1
			}
			x := slot<<uint(lb-c.CapHeight) | low
			hi := r.U64() >> uint(lb) << uint(lb)
			if (hi | x) >= ref.P {
				hi = 0
			}
			f.ch.Indices = append(f.ch.Indices, hi|x)
		}
		for i := 0; i < 4; i++ {
			f.caps = append(f.caps, rfrs(r, 1<<c.CapHeight))
		}
		for range c.Arities {
			f.p.CommitCaps = append(f.p.CommitCaps, rfrs(r, 1<<c.CapHeight))
		}
		ok := true
		for q := 0; q < c.NumQueries && ok; q++ {
			var qu ref.Query
			for i := 0; i < 4; i++ {
				qu.Initial = append(qu.Initial, ref.InitialOpening{Leaf: r.Fs(sz[i]), Siblings: rfrs(r, lb-c.CapHeight)})
			}
			b := lb
			for _, a := range c.Arities {
				b -= a
				qu.Steps = append(qu.Steps, ref.Step{Evals: r.Es(1 << uint(a)), Siblings: rfrs(r, b-c.CapHeight)})
			}
			f.p.Queries = append(f.p.Queries, qu)
			ok = f.link(q)
			if ok {
				f.setRoots(q)
			}
		}
		if !ok {
			continue
		}
		if err := ref.VerifyFri(c, f.zeta, f.o, f.ch, f.caps, f.p); err != nil {
			panic("HARNESS: constructed FRI claim is not consistent: " + err.Error() + " " + f.String())
		}
		return f
	}
	t.Skip("degenerate challenges")
	return nil
}

func (f *friCase) ref() error { return ref.VerifyFri(f.c, f.zeta, f.o, f.ch, f.caps, f.p) }

// circuit runs the repository's FRI verifier on the claim.
func (f *friCase) circuit(api frontend.API) {
	cd := conv.Common(f.c)
	c := fri.NewChip(api, &cd, &cd.FriParams)
	ch := conv.Engine.FriCh(f.ch)
	p := conv.Engine.Fri(f.p)
	c.VerifyFriProof(c.GetInstance(conv.Engine.E(f.zeta)), conv.Engine.FriOpenings(f.o), &ch, conv.Engine.Caps(f.caps), &p)
}

func (f *friCase) clone() *friCase {
	n := *f
	n.p = f.p.Clone()
	n.ch = f.ch.Clone()
	n.o = [2][]ref.E{append([]ref.E(nil), f.o[0]...), append([]ref.E(nil), f.o[1]...)}
	n.caps = nil
	for _, c := range f.caps {
		n.caps = append(n.caps, append([]fr.Element(nil), c...))
	}
	return &n
}

func nz(r *ref.Rng) uint64 {
	switch r.N(4) {
	case 0:
		return 1
	case 1:
		return ref.P - 1
	}
	return 1 + r.U64()%(ref.P-1)
}
func nzE(r *ref.Rng) ref.E {
	if r.N(2) == 0 {
		return ref.E{nz(r), 0}
	}
	return ref.E{0, nz(r)}
}

// agree compares the circuit's verdict with the reference's.
func (f *friCase) agree(t *T, m eng.Mode, what string) bool {
	want := f.ref()
	got := run(eng.Opt{Mode: m, Lenient: want != nil}, f.circuit)
	if (want == nil) != (got == nil) {
		t.Fatalf("%s: native FRI says %v, the circuit says %v\n%s", what, want, got, f)
	}
	return want == nil
}

func friMode(t *T) eng.Mode {
	return pick(t, []eng.Mode{eng.Native, eng.Native, eng.Native, eng.Native, eng.Native, eng.Native, eng.Native, eng.Plain}, "mode")
}
