// Package prove is a small Plonky2 prover: it generates real proofs, with their transcript, for
// random circuits, and can be told to cheat at one chosen step.
package prove

import (
	"fmt"
	"runtime"
	"sort"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"

	. "verifharness/ref"
)

// Circuit is a filled Plonk table together with its description.
type Circuit struct {
	C      *Common
	Consts [][]uint64 // [column][row], selectors first
	Sigma  [][]uint64 // [routed column][row]
	Wires  [][]uint64 // [column][row]
	RowG   []int      // gate index of each row
	PIs    []uint64
	Copies int // routed cells that belong to a non-trivial permutation cycle
}

// Config of a random circuit.
type Config struct {
	Gates     []Gate
	Q         int // quotient degree factor
	RoutedQ   int // routed wires = RoutedQ*Q - RoutedCut%Q
	RoutedCut int
	ExtraW    int // additional advice wires
	NumCh     int
	DegreeB   int
	RateB     int
	Arities   []int
	PowBits   int
	Queries   int
	NumPI     int
	Seed      uint64
	ExtraCons int
	// Flat makes every polynomial of the circuit a constant (identity and permutation maps zero), so that
	// the batched codeword, all folding evaluations and the final polynomial are zero.
	Flat   bool
	ZeroPI int // that many of the last public inputs are zero
	OneW   int // Flat: that many of the last wires are one
}

// Groups partitions the (degree-sorted) gates into selector groups the way Plonky2 does.
func Groups(gs []Gate, maxDeg int) (idx []int, groups [][2]int) {
	n := len(gs)
	if gs[n-1].Degree()+n-1 <= maxDeg {
		return make([]int, n), [][2]int{{0, n}}
	}
	idx = make([]int, n)
	for s := 0; s < n; {
		e := s
		for e < n && (e-s)+gs[e].Degree() < maxDeg {
			e++
		}
		if e == s {
			panic("gate degree too high for the quotient degree")
		}
		for i := s; i < e; i++ {
			idx[i] = len(groups)
		}
		groups = append(groups, [2]int{s, e})
		s = e
	}
	return
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// MinQ is the smallest quotient degree factor that admits these gates.
func MinQ(gs []Gate) int {
	q := 2
	for _, g := range gs {
		q = max(q, g.Degree())
	}
	if q > 8 {
		panic("degree")
	}
	return q
}

// Describe builds the circuit description for cfg.
func Describe(cfg *Config) *Common {
	gs := append([]Gate(nil), cfg.Gates...)
	sort.SliceStable(gs, func(i, j int) bool {
		if gs[i].Degree() != gs[j].Degree() {
			return gs[i].Degree() < gs[j].Degree()
		}
		return gs[i].ID() < gs[j].ID()
	})
	q := max(cfg.Q, MinQ(gs))
	c := &Common{Q: q, NumRouted: cfg.RoutedQ*q - cfg.RoutedCut%q, NumPartialProducts: cfg.RoutedQ - 1, NumChallenges: cfg.NumCh,
		DegreeBits: cfg.DegreeB, RateBits: cfg.RateB, CapHeight: 4, PowBits: cfg.PowBits, NumQueries: cfg.Queries,
		Arities: cfg.Arities, Gates: gs, NumPublicInputs: cfg.NumPI}
	c.SelectorIndices, c.Groups = Groups(gs, q+1)
	gc := 0
	for _, g := range gs {
		c.NumWires = max(c.NumWires, g.NumWires())
		c.NumGateConstraints = max(c.NumGateConstraints, g.NumConstraints())
		gc = max(gc, g.NumConsts())
	}
	c.NumWires = max(c.NumWires+cfg.ExtraW, c.NumRouted)
	c.NumConstants = len(c.Groups) + gc + cfg.ExtraCons
	k := uint64(1)
	for i := 0; i < c.NumRouted; i++ {
		c.KIs = append(c.KIs, k)
		k = Mul(k, 7)
	}
	if cfg.Flat {
		c.KIs = make([]uint64, c.NumRouted)
	}
	return c
}

func table(cols, rows int) [][]uint64 {
	t := make([][]uint64, cols)
	for i := range t {
		t[i] = make([]uint64, rows)
	}
	return t
}

// Build fills a random satisfying table.
func Build(cfg *Config) *Circuit {
	c := Describe(cfg)
	r := NewRng(cfg.Seed)
	n := 1 << c.DegreeBits
	ct := &Circuit{C: c, Consts: table(c.NumConstants, n), Wires: table(c.NumWires, n), Sigma: table(c.NumRouted, n), RowG: make([]int, n)}
	ct.PIs = r.Fs(cfg.NumPI)
	for i := 0; i < cfg.ZeroPI && i < cfg.NumPI; i++ {
		ct.PIs[cfg.NumPI-1-i] = 0
	}
	pih := HashNoPad(ct.PIs)
	ns := len(c.Groups)
	if cfg.Flat { // every row is the same Noop row
		gi := -1
		for i, g := range c.Gates {
			if _, ok := g.(Noop); ok {
				gi = i
			}
		}
		if gi < 0 {
			panic("Flat needs a Noop gate")
		}
		small := func() uint64 {
			switch r.N(4) {
			case 0:
				return 0
			case 1:
				return r.U64() >> 32 % (1<<32 - 1)
			case 2:
				return 1<<32 - 2
			}
			return r.F()
		}
		fill := func(col []uint64, v uint64) {
			for i := range col {
				col[i] = v
			}
		}
		for s := 0; s < ns; s++ {
			v := uint64(1<<32 - 1)
			if c.SelectorIndices[gi] == s {
				v = uint64(gi)
			}
			fill(ct.Consts[s], v)
		}
		for i := ns; i < c.NumConstants; i++ {
			fill(ct.Consts[i], small())
		}
		for i := range ct.Wires {
			fill(ct.Wires[i], small())
		}
		for i := 0; i < cfg.OneW && i < c.NumWires; i++ {
			fill(ct.Wires[c.NumWires-1-i], 1)
		}
		for i := range ct.RowG {
			ct.RowG[i] = gi
		}
		return ct
	}
	for row := 0; row < n; row++ {
		gi := row
		if row >= len(c.Gates) {
			gi = r.N(len(c.Gates))
		} else if n < len(c.Gates) {
			gi = r.N(len(c.Gates))
		}
		ct.RowG[row] = gi
		for s := 0; s < ns; s++ {
			v := uint64(1<<32 - 1)
			if c.SelectorIndices[gi] == s {
				v = uint64(gi)
			}
			ct.Consts[s][row] = v
		}
		cs := r.Fs(c.NumConstants - ns)
		ws := make([]uint64, c.NumWires)
		if r.N(3) > 0 {
			for i := range ws {
				if r.N(2) == 0 {
					ws[i] = r.F()
				}
			}
		}
		c.Gates[gi].Fill(r, cs, ws, pih)
		for i := range cs {
			ct.Consts[ns+i][row] = cs[i]
		}
		for i := range ws {
			ct.Wires[i][row] = ws[i]
		}
	}
	ct.permute(r)
	return ct
}

// permute links equal-valued routed cells into random cycles.
func (ct *Circuit) permute(r *Rng) {
	c := ct.C
	n := 1 << c.DegreeBits
	sub := Subgroup(c.DegreeBits)
	id := func(cell int) uint64 { return Mul(c.KIs[cell/n], sub[cell%n]) }
	byVal := map[uint64][]int{}
	var vals []uint64
	for cell := 0; cell < c.NumRouted*n; cell++ {
		v := ct.Wires[cell/n][cell%n]
		if byVal[v] == nil {
			vals = append(vals, v)
		}
		byVal[v] = append(byVal[v], cell)
		ct.Sigma[cell/n][cell%n] = id(cell)
	}
	for _, v := range vals {
		cs := byVal[v]
		if len(cs) < 2 {
			continue
		}
		for i := len(cs) - 1; i > 0; i-- {
			j := r.N(i + 1)
			cs[i], cs[j] = cs[j], cs[i]
		}
		for len(cs) > 1 {
			k := 2 + r.N(len(cs)-1)
			if k > len(cs) {
				k = len(cs)
			}
			for i := 0; i < k; i++ {
				a, b := cs[i], cs[(i+1)%k]
				ct.Sigma[a/n][a%n] = id(b)
			}
			ct.Copies += k
			cs = cs[k:]
		}
	}
}

// ---------------------------------------------------------------- polynomials

func fft(a []uint64, w uint64) []uint64 {
	n := len(a)
	if n == 1 {
		return []uint64{a[0]}
	}
	lg := 0
	for 1<<lg < n {
		lg++
	}
	o := make([]uint64, n)
	for i := range a {
		o[RevBits(uint64(i), lg)] = a[i]
	}
	for s := 1; s <= lg; s++ {
		m := 1 << s
		wm := Exp(w, uint64(n/m))
		tw := make([]uint64, m/2)
		tw[0] = 1
		for j := 1; j < m/2; j++ {
			tw[j] = Mul(tw[j-1], wm)
		}
		for k := 0; k < n; k += m {
			for j := 0; j < m/2; j++ {
				t := Mul(tw[j], o[k+j+m/2])
				u := o[k+j]
				o[k+j], o[k+j+m/2] = Add(u, t), Sub(u, t)
			}
		}
	}
	return o
}
func lg2(n int) int {
	l := 0
	for 1<<l < n {
		l++
	}
	return l
}

// Ifft interpolates values on the subgroup.
func Ifft(v []uint64) []uint64 {
	l := lg2(len(v))
	o := fft(v, Inv(RootOfUnity(l)))
	ni := Inv(uint64(len(v)))
	for i := range o {
		o[i] = Mul(o[i], ni)
	}
	return o
}

// CosetEval evaluates coefficients on shift*<w_{2^bits}> in natural order.
func CosetEval(coef []uint64, bits int, shift uint64) []uint64 {
	a := make([]uint64, 1<<bits)
	s := uint64(1)
	for i := range coef {
		a[i%len(a)] = Add(a[i%len(a)], Mul(coef[i], s))
		s = Mul(s, shift)
	}
	return fft(a, RootOfUnity(bits))
}
func cosetIfft(v []uint64, shift uint64) []uint64 {
	o := Ifft(v)
	si, s := Inv(shift), uint64(1)
	for i := range o {
		o[i] = Mul(o[i], s)
		s = Mul(s, si)
	}
	return o
}

func par(n int, f func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if n < 64 || w == 1 {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < n; i += w {
				f(i)
			}
		}(k)
	}
	wg.Wait()
}

// ---------------------------------------------------------------- Merkle trees

type Tree struct {
	Leaves [][]uint64
	levels [][]fr.Element // levels[0]: leaf digests, last: cap
}

func NewTree(leaves [][]uint64, capH int) *Tree { return newTree(leaves, capH, nil) }

// newTree with a bump hashes column bump.Col of the rows it selects as value + K.
func newTree(leaves [][]uint64, capH int, b *bump) *Tree {
	d := make([]fr.Element, len(leaves))
	par(len(leaves), func(i int) {
		if b != nil && b.at(i) {
			l := make([]fr.Element, len(leaves[i]))
			for j, v := range leaves[i] {
				l[j].SetUint64(v)
			}
			l[b.Col].Add(&l[b.Col], &b.K)
			d[i] = HashOrNoopFr(l)
			return
		}
		d[i] = HashOrNoop(leaves[i])
	})
	t := &Tree{Leaves: leaves, levels: [][]fr.Element{d}}
	for len(d) > 1<<capH {
		nx := make([]fr.Element, len(d)/2)
		w := len(nx) / 8
		if w == 0 {
			w = len(nx)
		}
		par(len(nx)/w, func(k int) { // constant polynomials give runs of equal nodes
			for i := k * w; i < (k+1)*w; i++ {
				if i > k*w && d[2*i] == d[2*i-2] && d[2*i+1] == d[2*i-1] {
					nx[i] = nx[i-1]
				} else {
					nx[i] = TwoToOne(d[2*i], d[2*i+1])
				}
			}
		})
		t.levels = append(t.levels, nx)
		d = nx
	}
	return t
}
func (t *Tree) Cap() []fr.Element {
	return append([]fr.Element(nil), t.levels[len(t.levels)-1]...)
}
func (t *Tree) Path(i uint64) []fr.Element {
	o := []fr.Element{}
	for l := 0; l < len(t.levels)-1; l++ {
		o = append(o, t.levels[l][i^1])
		i >>= 1
	}
	return o
}

// bump makes the committed rows of a tree carry a non-canonical element.
type bump struct {
	Tree, Col int
	K         fr.Element
	dens      uint64
	R         uint64
}

func (b *bump) at(row int) bool {
	return NewRng(b.R^uint64(row)*0x9e3779b97f4a7c15).U64()%b.dens == 0
}

// Bump says that a proof element has to be presented as value + K. Tree 0..3: initial trees, 4+l:
// folding layer l, where Col counts limbs.
type Bump struct {
	Query, Tree, Col int
	K                fr.Element
}

// oracle: a batch of polynomials committed over the LDE domain, leaves in bit-reversed order.
type oracle struct {
	coef [][]uint64
	tree *Tree
}

func (c *comm) commit(coef [][]uint64, bs ...*bump) *oracle {
	var b *bump
	if len(bs) > 0 {
		b = bs[0]
	}
	lb := c.LdeBits()
	ev := make([][]uint64, len(coef))
	par(len(coef), func(i int) { ev[i] = CosetEval(coef[i], lb, 7) })
	leaves := make([][]uint64, 1<<lb)
	for i := range leaves {
		k := RevBits(uint64(i), lb)
		leaves[i] = make([]uint64, len(coef))
		for j := range coef {
			leaves[i][j] = ev[j][k]
		}
	}
	return &oracle{coef, newTree(leaves, c.CapHeight, b)}
}

type comm struct{ *Common }

// Cheat tells the prover where to deviate. The zero value is honest.
type Cheat struct {
	Kind string
	A, B int
	R    uint64
	K    fr.Element // "noncanon": what is added to the committed element
}

var CheatKinds = []string{
	"gate",       // a row violates its gate
	"gate-drop",  // as gate, and the quotient is built as if that constraint did not exist
	"copy",       // a copy constraint is violated
	"copy-pp",    // as copy, one partial-product step is left out of the quotient
	"z1",         // permutation argument does not start at one
	"pi",         // proof built for other public inputs than claimed
	"pi-hash",    // PI row holds a different hash, transcript uses the claimed one
	"quot-round", // quotient of one challenge round is wrong
	"quot-chunk", // one quotient chunk is wrong
	"open",       // one opening is false, FRI performed on the true polynomials
	"open-znext", // a Z(g*zeta) opening is false
	"open-adapt", // false opening, FRI combination ignores that polynomial
	"highdeg",    // a wire polynomial has degree >= n
	"pow",        // proof of work not ground
	"cap",        // commitment of one oracle is to a different table
	"commit-cap", // commitment of one folding layer is to a different table
	"fold",       // a folding layer is replaced by an unrelated low-degree codeword
	"final",      // final polynomial altered before it is observed
	"final-all",  // unrelated final polynomial
	"fri-random", // committed codeword of a layer is random, final polynomial fitted to the first query
	"digest",     // proof built for another circuit digest
	"const",      // constants differ from the committed circuit
	"sigma",      // permutation differs from the committed circuit
	"beta-reuse", // second challenge round reuses the first round's beta/gamma
	"zeta-off",   // openings taken at another point
}

// Digest of a circuit: any fixed field element derived from the description works for the verifier.
func (ct *Circuit) digest(cap []fr.Element) fr.Element {
	var acc fr.Element
	for _, h := range cap {
		acc = TwoToOne(acc, h)
	}
	return acc
}

type Result struct {
	VD    *VerifierData
	Proof *Proof
	PIs   []uint64
	Ch    *Challenges
	Note  string
	Bumps []Bump
}

// Prove makes a proof; with a Cheat the result is transcript-consistent but should not verify.
func (ct *Circuit) Prove(ch Cheat) *Result {
	c := &comm{ct.C}
	n := 1 << c.DegreeBits
	r := NewRng(ch.R ^ 0xabcdef)
	res := &Result{PIs: append([]uint64(nil), ct.PIs...)}
	wires := table(c.NumWires, n)
	for i := range wires {
		copy(wires[i], ct.Wires[i])
	}
	consts, sigma := ct.Consts, ct.Sigma
	is := func(k string) bool { return ch.Kind == k }
	nz := func() uint64 { return 1 + r.U64()%(P-1) }

	var drop = map[int]bool{} // vanishing terms omitted from the quotient
	nZ1, nPP := c.NumChallenges, c.NumChallenges*(c.NumPartialProducts+1)

	switch ch.Kind {
	case "gate", "gate-drop":
		row := ch.A % n
		for t := 0; t < n && c.Gates[ct.RowG[row]].NumWires() == 0; t++ {
			row = (row + 1) % n
		}
		g := c.Gates[ct.RowG[row]]
		if g.NumWires() > 0 {
			j := ch.B % g.NumWires()
			wires[j][row] = Add(wires[j][row], nz())
			if is("gate-drop") {
				ws, cs := make([]E, c.NumWires), []E{}
				for i := range ws {
					ws[i] = EB(wires[i][row])
				}
				for i := len(c.Groups); i < c.NumConstants; i++ {
					cs = append(cs, EB(consts[i][row]))
				}
				for i, v := range g.Eval(cs, ws, HashNoPad(ct.PIs)) {
					if !EIsZero(v) {
						drop[nZ1+nPP+i] = true
					}
				}
			}
		}
	case "copy", "copy-pp":
		// change a linked cell of a gate-free position, or any linked cell
		type cell struct{ j, row int }
		var free, linked []cell
		sub := Subgroup(c.DegreeBits)
		for j := 0; j < c.NumRouted; j++ {
			for row := 0; row < n; row++ {
				if sigma[j][row] != Mul(c.KIs[j], sub[row]) {
					linked = append(linked, cell{j, row})
					if j >= c.Gates[ct.RowG[row]].NumWires() {
						free = append(free, cell{j, row})
					}
				}
			}
		}
		if len(free) == 0 {
			free = linked
		}
		if len(free) > 0 {
			x := free[ch.A%len(free)]
			wires[x.j][x.row] = Add(wires[x.j][x.row], nz())
			if is("copy-pp") {
				for k := 0; k < c.NumChallenges; k++ {
					drop[nZ1+k*(c.NumPartialProducts+1)+ch.B%(c.NumPartialProducts+1)] = true
				}
			}
		}
	case "pi":
		if len(res.PIs) == 0 {
			res.PIs = []uint64{1}
		} else {
			res.PIs[ch.A%len(res.PIs)] = Add(res.PIs[ch.A%len(res.PIs)], nz())
		}
	case "pi-hash":
		for row := 0; row < n; row++ {
			if _, ok := c.Gates[ct.RowG[row]].(PublicInput); ok {
				j := ch.A % 4
				wires[j][row] = Add(wires[j][row], nz())
				drop[nZ1+nPP+j] = true
			}
		}
	case "const", "sigma":
		cp := func(t [][]uint64) [][]uint64 {
			o := table(len(t), n)
			for i := range t {
				copy(o[i], t[i])
			}
			return o
		}
		if is("const") {
			consts = cp(consts)
			i := ch.A % len(consts)
			consts[i][ch.B%n] = Add(consts[i][ch.B%n], nz())
		} else {
			sigma = cp(sigma)
			i := ch.A % len(sigma)
			a, b := ch.B%n, (ch.B/n+1+ch.B)%n
			sigma[i][a], sigma[i][b] = sigma[i][b], sigma[i][a]
		}
	}

	// noncanon: tree A, column B
	bumpOf := func(tree, cols int) *bump {
		if !is("noncanon") || ch.A%(4+len(c.Arities)) != tree {
			return nil
		}
		return &bump{Tree: tree, Col: ch.B % cols, K: ch.K, dens: uint64(c.NumQueries), R: ch.R}
	}
	commitTable := func(t [][]uint64, b ...*bump) *oracle {
		co := make([][]uint64, len(t))
		par(len(t), func(i int) { co[i] = Ifft(t[i]) })
		return c.commit(co, b...)
	}
	honestCS := commitTable(append(append([][]uint64{}, ct.Consts...), ct.Sigma...), bumpOf(0, c.NumConstants+c.NumRouted))
	cs := honestCS
	if is("const") || is("sigma") {
		cs = commitTable(append(append([][]uint64{}, consts...), sigma...))
	}
	res.VD = &VerifierData{ConstantsSigmasCap: honestCS.tree.Cap()}
	res.VD.Digest = ct.digest(res.VD.ConstantsSigmasCap)
	digest := res.VD.Digest
	if is("digest") {
		one := fr.One()
		digest.Add(&digest, &one)
	}

	claimed := HashNoPad(res.PIs)
	tr := &Challenger{}
	tr.ObserveBN(digest)
	tr.ObserveHash(claimed)

	wo := commitTable(wires, bumpOf(1, c.NumWires))
	if is("highdeg") {
		j := ch.A % c.NumWires
		co := append([][]uint64{}, wo.coef...)
		co[j] = append([]uint64(nil), co[j]...)
		for len(co[j]) < n {
			co[j] = append(co[j], 0)
		}
		// add (x^n - 1) * x^3 * s: same values on the subgroup, but the combination has degree above n-1
		s := nz()
		co[j] = append(co[j], make([]uint64, 4)...)
		for len(co[j]) < 4+n {
			co[j] = append(co[j], 0)
		}
		co[j][n+3] = s
		co[j][3] = Sub(co[j][3], s)
		wo = c.commit(co)
	}
	fakeCap := func(o *oracle, idx int) []fr.Element {
		if is("cap") && ch.A%4 == idx {
			cap := make([]fr.Element, 16)
			for i := range cap {
				cap[i].SetUint64(r.U64())
			}
			return cap
		}
		return o.tree.Cap()
	}
	p := &Proof{}
	if is("cap") && ch.A%4 == 0 {
		res.VD.ConstantsSigmasCap = fakeCap(cs, 0)
	}
	p.WiresCap = fakeCap(wo, 1)
	tr.ObserveCap(p.WiresCap)
	co := &Challenges{}
	co.Betas, co.Gammas = tr.GetN(c.NumChallenges), tr.GetN(c.NumChallenges)
	if is("beta-reuse") {
		for k := range co.Betas {
			co.Betas[k], co.Gammas[k] = co.Betas[0], co.Gammas[0]
		}
	}

	// permutation argument
	sub := Subgroup(c.DegreeBits)
	npp := c.NumPartialProducts
	zs := table(c.NumChallenges, n)
	pps := table(c.NumChallenges*npp, n)
	for k := 0; k < c.NumChallenges; k++ {
		z := uint64(1)
		if is("z1") && ch.A%c.NumChallenges == k {
			z = nz()
			drop[k] = true
		}
		for row := 0; row < n; row++ {
			zs[k][row] = z
			acc := z
			for i := 0; i <= npp; i++ {
				num, den := uint64(1), uint64(1)
				for j := i * c.Q; j < (i+1)*c.Q && j < c.NumRouted; j++ {
					wg := Add(wires[j][row], co.Gammas[k])
					num = Mul(num, Add(wg, Mul(co.Betas[k], Mul(c.KIs[j], sub[row]))))
					den = Mul(den, Add(wg, Mul(co.Betas[k], sigma[j][row])))
				}
				acc = Mul(acc, Mul(num, Inv(den)))
				if i < npp {
					pps[k*npp+i][row] = acc
				}
			}
			z = acc
		}
	}
	zo := commitTable(append(append([][]uint64{}, zs...), pps...), bumpOf(2, len(zs)+len(pps)))
	p.ZsCap = fakeCap(zo, 2)
	tr.ObserveCap(p.ZsCap)
	co.Alphas = tr.GetN(c.NumChallenges)

	// quotient on a coset large enough for degree < Q*n
	qb := c.DegreeBits + lg2(c.Q)
	if is("highdeg") {
		qb++
	}
	size := 1 << qb
	evalAll := func(o *oracle) [][]uint64 {
		ev := make([][]uint64, len(o.coef))
		par(len(o.coef), func(i int) { ev[i] = CosetEval(o.coef[i], qb, 7) })
		return ev
	}
	ce, we, ze := evalAll(cs), evalAll(wo), evalAll(zo)
	qe := table(c.NumChallenges, size)
	wq := RootOfUnity(qb)
	xs := make([]uint64, size)
	xs[0] = 7
	for i := 1; i < size; i++ {
		xs[i] = Mul(xs[i-1], wq)
	}
	step := size / n
	gatePIH := claimed
	par(size, func(i int) {
		col := func(ev [][]uint64, a, b, at int) []E {
			o := make([]E, b-a)
			for j := range o {
				o[j] = EB(ev[a+j][at%size])
			}
			return o
		}
		op := &Openings{
			Constants: col(ce, 0, c.NumConstants, i), Sigmas: col(ce, c.NumConstants, c.NumConstants+c.NumRouted, i),
			Wires: col(we, 0, c.NumWires, i), Zs: col(ze, 0, c.NumChallenges, i), ZsNext: col(ze, 0, c.NumChallenges, i+step),
			PartialProducts: col(ze, c.NumChallenges, c.NumChallenges*(1+npp), i),
		}
		x := xs[i]
		zh := Inv(Sub(Exp(x, uint64(n)), 1))
		terms := VanishingTerms(c.Common, co.Betas, co.Gammas, EB(x), op, gatePIH)
		for t := range drop {
			if t < len(terms) {
				terms[t] = E{}
			}
		}
		for k := 0; k < c.NumChallenges; k++ {
			qe[k][i] = Mul(EPoly(terms, EB(co.Alphas[k]))[0], zh)
		}
	})
	var qc [][]uint64
	for k := 0; k < c.NumChallenges; k++ {
		f := cosetIfft(qe[k], 7)
		for len(f) < c.Q*n {
			f = append(f, 0)
		}
		if ch.Kind == "" {
			for i := c.Q * n; i < len(f); i++ {
				if f[i] != 0 {
					panic("prover: quotient degree")
				}
			}
		}
		if is("quot-round") && ch.A%c.NumChallenges == k {
			for i := range f {
				f[i] = r.F()
			}
		}
		for j := 0; j < c.Q; j++ {
			chunk := append([]uint64(nil), f[j*n:(j+1)*n]...)
			if is("quot-chunk") && ch.A%(c.NumChallenges*c.Q) == k*c.Q+j {
				chunk[ch.B%n] = Add(chunk[ch.B%n], nz())
			}
			qc = append(qc, chunk)
		}
	}
	qo := c.commit(qc, bumpOf(3, len(qc)))
	p.QuotientCap = fakeCap(qo, 3)
	tr.ObserveCap(p.QuotientCap)
	co.Zeta = tr.GetExt()

	// openings
	at := func(o *oracle, a, b int, z E) []E {
		out := make([]E, b-a)
		for i := range out {
			acc := E{}
			cf := o.coef[a+i]
			for j := len(cf) - 1; j >= 0; j-- {
				acc = EMul(acc, z)
				acc[0] = Add(acc[0], cf[j])
			}
			out[i] = acc
		}
		return out
	}
	z := co.Zeta
	if is("zeta-off") {
		z = EAdd(z, E{nz(), 0})
	}
	zn := EScale(z, RootOfUnity(c.DegreeBits))
	p.Openings = Openings{
		Constants: at(cs, 0, c.NumConstants, z), Sigmas: at(cs, c.NumConstants, c.NumConstants+c.NumRouted, z),
		Wires: at(wo, 0, c.NumWires, z), Zs: at(zo, 0, c.NumChallenges, z), ZsNext: at(zo, 0, c.NumChallenges, zn),
		PartialProducts: at(zo, c.NumChallenges, c.NumChallenges*(1+npp), z), Quotient: at(qo, 0, len(qc), z),
	}
	skip := -1
	switch ch.Kind {
	case "open", "open-adapt":
		_, ls := p.Openings.Lists()
		tot := 0
		for _, l := range ls {
			tot += len(*l)
		}
		k := ch.A % tot
		for i, l := range ls {
			if k < len(*l) {
				(*l)[k][ch.B%2] = Add((*l)[k][ch.B%2], nz())
				if i < 4 || i > 4 {
					skip = 0
					for q, m := range ls[:i] {
						if q != 4 {
							skip += len(*m)
						}
					}
					skip += k
				}
				break
			}
			k -= len(*l)
		}
	case "open-znext":
		k := ch.A % len(p.Openings.ZsNext)
		p.Openings.ZsNext[k][ch.B%2] = Add(p.Openings.ZsNext[k][ch.B%2], nz())
	}
	switch ch.Kind { // more openings than the description fixes, consistent with everything but that
	case "shape-quotient":
		p.Openings.Quotient = append(p.Openings.Quotient, make([]E, 1+ch.A%3)...)
	case "shape-zsnext":
		p.Openings.ZsNext = append(p.Openings.ZsNext, make([]E, 1+ch.A%3)...)
	case "shape-wires": // the last wires are claimed as permutation polynomials
		k := 1 + ch.A%3
		if k > c.NumWires {
			k = c.NumWires
		}
		w := p.Openings.Wires
		p.Openings.Zs = append(append([]E(nil), w[len(w)-k:]...), p.Openings.Zs...)
		p.Openings.Wires = w[:len(w)-k]
	}
	for _, b := range p.Openings.Batches() {
		tr.ObserveExt(b...)
	}

	// FRI
	fc := FriChallenges{Alpha: tr.GetExt()}
	lb := c.LdeBits()
	b := p.Openings.Batches()
	reduced := [2]E{EPoly(b[0], fc.Alpha), EPoly(b[1], fc.Alpha)}
	points := [2]E{z, zn}
	trees := []*oracle{cs, wo, zo, qo}
	code := make([]E, 1<<lb)
	par(len(code), func(i int) {
		var lv [][]uint64
		for _, t := range trees {
			lv = append(lv, t.tree.Leaves[i])
		}
		red := reduced
		if is("open-adapt") && skip >= 0 { // pretend the lied-about polynomial is the constant we opened
			d := ESub(b[0][skip], trueOpening(c, trees, skip, z))
			red[0] = ESub(red[0], EMul(d, EExp(fc.Alpha, uint64(skip))))
		}
		v, err := CombineInitial(c.Common, points, red, lv, fc.Alpha, LayerPoint(uint64(i), lb, 0))
		if err != nil {
			panic(err)
		}
		code[i] = v
	})
	shift := 0
	var ctrees []*Tree
	var codes [][]E
	for li, a := range c.Arities {
		if (is("fold") || is("fri-random")) && ch.A%len(c.Arities) == li {
			if is("fold") { // an unrelated codeword of the right degree
				deg := 1 << (c.DegreeBits - shift)
				f0, f1 := r.Fs(deg), r.Fs(deg)
				off := Exp(7, 1<<uint(shift))
				e0, e1 := CosetEval(f0, lb, off), CosetEval(f1, lb, off)
				for i := range code {
					k := RevBits(uint64(i), lb)
					code[i] = E{e0[k], e1[k]}
				}
			} else {
				for i := range code {
					code[i] = r.E()
				}
			}
		}
		codes = append(codes, code)
		m := len(code) >> a
		leaves := make([][]uint64, m)
		for i := range leaves {
			for _, e := range code[i<<a : (i+1)<<a] {
				leaves[i] = append(leaves[i], e[0], e[1])
			}
		}
		t := newTree(leaves, c.CapHeight, bumpOf(4+li, 2<<a))
		ctrees = append(ctrees, t)
		cap := t.Cap()
		if is("commit-cap") && ch.A%len(c.Arities) == li {
			for i := range cap {
				cap[i].SetUint64(r.U64())
			}
		}
		p.Fri.CommitCaps = append(p.Fri.CommitCaps, cap)
		tr.ObserveCap(cap)
		beta := tr.GetExt()
		fc.Betas = append(fc.Betas, beta)
		next := make([]E, m)
		par(m, func(i int) {
			xs := make([]E, 1<<a)
			for j := range xs {
				xs[j] = EB(LayerPoint(uint64(i<<a|j), lb, shift))
			}
			next[i] = Interpolate(xs, code[i<<a:(i+1)<<a], beta)
		})
		code = next
		lb -= a
		shift += a
	}
	// final polynomial
	v0, v1 := make([]uint64, 1<<lb), make([]uint64, 1<<lb)
	for i := range code {
		k := RevBits(uint64(i), lb)
		v0[k], v1[k] = code[i][0], code[i][1]
	}
	off := Exp(7, 1<<uint(shift))
	f0, f1 := cosetIfft(v0, off), cosetIfft(v1, off)
	for i := 0; i < c.FinalLen(); i++ {
		p.Fri.FinalPoly = append(p.Fri.FinalPoly, E{f0[i], f1[i]})
	}
	if ch.Kind == "" {
		for i := c.FinalLen(); i < len(f0); i++ {
			if f0[i] != 0 || f1[i] != 0 {
				panic("prover: final polynomial degree")
			}
		}
	}
	switch ch.Kind {
	case "final":
		k := ch.A % c.FinalLen()
		p.Fri.FinalPoly[k][ch.B%2] = Add(p.Fri.FinalPoly[k][ch.B%2], nz())
	case "final-all":
		for i := range p.Fri.FinalPoly {
			p.Fri.FinalPoly[i] = E{nz(), nz()}
		}
	}
	tr.ObserveExt(p.Fri.FinalPoly...)
	// proof of work
	for w := r.U64() % P; ; w = Add(w, 1) {
		t := tr.Clone()
		t.Observe(w)
		resp := t.Get()
		ok := c.PowBits == 0 || resp>>uint(64-c.PowBits) == 0
		if ok != is("pow") || (is("pow") && c.PowBits == 0) {
			p.Fri.PowWitness = w
			fc.Pow = resp
			fc.Indices = t.GetN(c.NumQueries)
			break
		}
	}
	for qi, ix := range fc.Indices {
		lb := c.LdeBits()
		i := ix & (1<<uint(lb) - 1)
		note := func(tree, cols int) {
			if b := bumpOf(tree, cols); b != nil && b.at(int(i)) {
				res.Bumps = append(res.Bumps, Bump{qi, tree, b.Col, b.K})
			}
		}
		var q Query
		for ti, t := range trees {
			note(ti, len(t.coef))
			q.Initial = append(q.Initial, InitialOpening{append([]uint64(nil), t.tree.Leaves[i]...), t.tree.Path(i)})
		}
		for li, a := range c.Arities {
			i >>= uint(a)
			note(4+li, 2<<a)
			q.Steps = append(q.Steps, Step{append([]E(nil), codes[li][i<<uint(a):(i+1)<<uint(a)]...), ctrees[li].Path(i)})
		}
		p.Fri.Queries = append(p.Fri.Queries, q)
	}
	co.Fri = fc
	res.Proof, res.Ch = p, co
	res.Note = fmt.Sprintf("n=%d gates=%d sel=%d copies=%d", n, len(c.Gates), len(c.Groups), ct.Copies)
	return res
}

// trueOpening evaluates the idx-th polynomial of the zeta batch.
func trueOpening(c *comm, trees []*oracle, idx int, z E) E {
	for _, t := range trees {
		if idx < len(t.coef) {
			acc := E{}
			cf := t.coef[idx]
			for j := len(cf) - 1; j >= 0; j-- {
				acc = EMul(acc, z)
				acc[0] = Add(acc[0], cf[j])
			}
			return acc
		}
		idx -= len(t.coef)
	}
	panic("index")
}
