package ref

import (
	"errors"
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// GetChallenges is Plonky2's transcript.
func GetChallenges(c *Common, pih [4]uint64, vd *VerifierData, p *Proof) *Challenges {
	ch := &Challenger{}
	ch.ObserveBN(vd.Digest)
	ch.ObserveHash(pih)
	ch.ObserveCap(p.WiresCap)
	r := &Challenges{}
	r.Betas = ch.GetN(c.NumChallenges)
	r.Gammas = ch.GetN(c.NumChallenges)
	ch.ObserveCap(p.ZsCap)
	r.Alphas = ch.GetN(c.NumChallenges)
	ch.ObserveCap(p.QuotientCap)
	r.Zeta = ch.GetExt()
	for _, b := range p.Openings.Batches() {
		ch.ObserveExt(b...)
	}
	r.Fri = *FriTranscript(ch, p.Fri.CommitCaps, p.Fri.FinalPoly, p.Fri.PowWitness, c.NumQueries)
	return r
}

func FriTranscript(ch *Challenger, caps [][]fr.Element, final []E, pow uint64, nq int) *FriChallenges {
	f := &FriChallenges{}
	f.Alpha = ch.GetExt()
	for _, cap := range caps {
		ch.ObserveCap(cap)
		f.Betas = append(f.Betas, ch.GetExt())
	}
	ch.ObserveExt(final...)
	ch.Observe(pow)
	f.Pow = ch.Get()
	f.Indices = ch.GetN(nq)
	return f
}

// EvalGateConstraints aggregates the filtered constraints of all gates.
func EvalGateConstraints(gates []Gate, selIdx []int, groups [][2]int, num int, consts, wires []E, pih [4]uint64) []E {
	out := make([]E, num)
	ns := len(groups)
	for gi, g := range gates {
		si := selIdx[gi]
		s := consts[si]
		filter := EOne
		for i := groups[si][0]; i < groups[si][1]; i++ {
			if i != gi {
				filter = EMul(filter, ESub(EB(uint64(i)), s))
			}
		}
		if ns > 1 {
			filter = EMul(filter, ESub(EB(1<<32-1), s))
		}
		for i, v := range g.Eval(consts[ns:], wires, pih) {
			out[i] = EAdd(out[i], EMul(v, filter))
		}
	}
	return out
}

// VanishingTerms lists all vanishing terms at x in Plonky2's order: first-row terms, partial-product
// steps, gate constraints.
func VanishingTerms(c *Common, betas, gammas []uint64, x E, o *Openings, pih [4]uint64) []E {
	gateTerms := EvalGateConstraints(c.Gates, c.SelectorIndices, c.Groups, c.NumGateConstraints, o.Constants, o.Wires, pih)
	n := uint64(1) << c.DegreeBits
	zn := EExp(x, n)
	l0 := EDiv(ESub(zn, EOne), EScale(ESub(x, EOne), n))
	var z1, pp []E
	for k := 0; k < c.NumChallenges; k++ {
		z1 = append(z1, EMul(l0, ESub(o.Zs[k], EOne)))
		accs := []E{o.Zs[k]}
		accs = append(accs, o.PartialProducts[k*c.NumPartialProducts:(k+1)*c.NumPartialProducts]...)
		accs = append(accs, o.ZsNext[k])
		for i := 0; i <= c.NumPartialProducts; i++ {
			num, den := EOne, EOne
			for j := i * c.Q; j < (i+1)*c.Q && j < c.NumRouted; j++ {
				wg := EAdd(o.Wires[j], EB(gammas[k]))
				num = EMul(num, EAdd(wg, EScale(x, Mul(betas[k], c.KIs[j]))))
				den = EMul(den, EAdd(wg, EScale(o.Sigmas[j], betas[k])))
			}
			pp = append(pp, ESub(EMul(accs[i], num), EMul(accs[i+1], den)))
		}
	}
	return append(append(z1, pp...), gateTerms...)
}

// Vanishing returns, per challenge round, the alpha-combination of all vanishing terms at zeta.
func Vanishing(c *Common, ch *Challenges, o *Openings, pih [4]uint64) []E {
	terms := VanishingTerms(c, ch.Betas, ch.Gammas, ch.Zeta, o, pih)
	out := make([]E, c.NumChallenges)
	for k := range out {
		out[k] = EPoly(terms, EB(ch.Alphas[k]))
	}
	return out
}

func VerifyPlonk(c *Common, ch *Challenges, o *Openings, pih [4]uint64) error {
	n := uint64(1) << c.DegreeBits
	zn := EExp(ch.Zeta, n)
	if EIsZero(ESub(ch.Zeta, EOne)) {
		return errors.New("zeta = 1")
	}
	v := Vanishing(c, ch, o, pih)
	for k := range v {
		q := EPoly(o.Quotient[k*c.Q:(k+1)*c.Q], zn)
		if v[k] != EMul(ESub(zn, EOne), q) {
			return fmt.Errorf("vanishing identity fails for challenge %d", k)
		}
	}
	return nil
}

// MerkleRoot walks a path; index bits choose the side.
func MerkleWalk(leaf fr.Element, idx uint64, sib []fr.Element) (fr.Element, uint64) {
	for _, s := range sib {
		if idx&1 == 1 {
			leaf = TwoToOne(s, leaf)
		} else {
			leaf = TwoToOne(leaf, s)
		}
		idx >>= 1
	}
	return leaf, idx
}

func verifyMerkle(leaf []uint64, idx uint64, sib []fr.Element, cap []fr.Element) error {
	d, i := MerkleWalk(HashOrNoop(leaf), idx, sib)
	if int(i) >= len(cap) || !cap[i].Equal(&d) {
		return errors.New("merkle path")
	}
	return nil
}

// Instance is the FRI opening claim: points and polynomial lists are fixed by Common.
func CheckFriShape(c *Common, p *FriProof) error {
	if len(p.Queries) != c.NumQueries || len(p.CommitCaps) != len(c.Arities) || len(p.FinalPoly) != c.FinalLen() {
		return errors.New("shape: queries/caps/final")
	}
	for _, cap := range p.CommitCaps {
		if len(cap) != 1<<c.CapHeight {
			return errors.New("shape: cap")
		}
	}
	sz := c.OracleSizes()
	for _, q := range p.Queries {
		if len(q.Initial) != 4 || len(q.Steps) != len(c.Arities) {
			return errors.New("shape: query")
		}
		for i, o := range q.Initial {
			if len(o.Leaf) != sz[i] || len(o.Siblings) != c.LdeBits()-c.CapHeight {
				return errors.New("shape: initial")
			}
		}
		lb := c.LdeBits()
		for i, s := range q.Steps {
			lb -= c.Arities[i]
			if len(s.Evals) != 1<<c.Arities[i] || len(s.Siblings) != lb-c.CapHeight {
				return errors.New("shape: step")
			}
		}
	}
	return nil
}

// CombineInitial is the batched quotient evaluation at x from the queried leaves.
func CombineInitial(c *Common, points [2]E, reduced [2]E, leaves [][]uint64, alpha E, x uint64) (E, error) {
	var all, zs []E
	for _, l := range leaves {
		for _, v := range l {
			all = append(all, EB(v))
		}
	}
	for k := 0; k < c.NumChallenges; k++ {
		zs = append(zs, EB(leaves[2][k]))
	}
	sum := E{}
	for b, ev := range [2][]E{all, zs} {
		den := ESub(EB(x), points[b])
		if EIsZero(den) {
			return sum, errors.New("point on domain")
		}
		num := ESub(EPoly(ev, alpha), reduced[b])
		sum = EAdd(EMul(sum, EExp(alpha, uint64(len(ev)))), EDiv(num, den))
	}
	return sum, nil
}

// Interpolate evaluates at z the polynomial through (xs[i], ys[i]).
func Interpolate(xs []E, ys []E, z E) E {
	sum := E{}
	for i := range xs {
		num, den := EOne, EOne
		for j := range xs {
			if i != j {
				num = EMul(num, ESub(z, xs[j]))
				den = EMul(den, ESub(xs[i], xs[j]))
			}
		}
		sum = EAdd(sum, EMul(ys[i], EDiv(num, den)))
	}
	return sum
}

// LayerPoint returns the domain point of (bit-reversed) index i in a layer of 2^bits points whose
// offset is 7^(2^shift).
func LayerPoint(i uint64, bits int, shift int) uint64 {
	off := Exp(7, 1<<uint(shift))
	return Mul(off, Exp(RootOfUnity(bits), RevBits(i, bits)))
}

func VerifyFri(c *Common, zeta E, o [2][]E, ch *FriChallenges, caps [][]fr.Element, p *FriProof) error {
	if err := CheckFriShape(c, p); err != nil {
		return err
	}
	if c.PowBits > 0 && ch.Pow>>uint(64-c.PowBits) != 0 {
		return errors.New("pow")
	}
	reduced := [2]E{EPoly(o[0], ch.Alpha), EPoly(o[1], ch.Alpha)}
	points := [2]E{zeta, EScale(zeta, RootOfUnity(c.DegreeBits))}
	for qi, q := range p.Queries {
		lb := c.LdeBits()
		idx := ch.Indices[qi] & (1<<uint(lb) - 1)
		var leaves [][]uint64
		for t, in := range q.Initial {
			if err := verifyMerkle(in.Leaf, idx, in.Siblings, caps[t]); err != nil {
				return fmt.Errorf("query %d initial %d: %w", qi, t, err)
			}
			leaves = append(leaves, in.Leaf)
		}
		shift := 0
		old, err := CombineInitial(c, points, reduced, leaves, ch.Alpha, LayerPoint(idx, lb, 0))
		if err != nil {
			return err
		}
		for si, st := range q.Steps {
			a := c.Arities[si]
			within := idx & (1<<uint(a) - 1)
			coset := idx >> uint(a)
			if st.Evals[within] != old {
				return fmt.Errorf("query %d step %d: inconsistent evaluation", qi, si)
			}
			xs := make([]E, 1<<uint(a))
			for j := range xs {
				xs[j] = EB(LayerPoint(coset<<uint(a)|uint64(j), lb, shift))
			}
			old = Interpolate(xs, st.Evals, ch.Betas[si])
			var flat []uint64
			for _, e := range st.Evals {
				flat = append(flat, e[0], e[1])
			}
			if err := verifyMerkle(flat, coset, st.Siblings, p.CommitCaps[si]); err != nil {
				return fmt.Errorf("query %d step %d: %w", qi, si, err)
			}
			idx = coset
			lb -= a
			shift += a
		}
		if EPoly(p.FinalPoly, EB(LayerPoint(idx, lb, shift))) != old {
			return fmt.Errorf("query %d: final polynomial", qi)
		}
	}
	return nil
}

// Canonical checks that every field element of the proof is in [0,p).
func Canonical(p *Proof) error {
	bad := false
	u := func(x uint64) { bad = bad || x >= P }
	e := func(xs []E) {
		for _, x := range xs {
			u(x[0])
			u(x[1])
		}
	}
	_, ls := p.Openings.Lists()
	for _, l := range ls {
		e(*l)
	}
	for _, q := range p.Fri.Queries {
		for _, i := range q.Initial {
			for _, x := range i.Leaf {
				u(x)
			}
		}
		for _, s := range q.Steps {
			e(s.Evals)
		}
	}
	e(p.Fri.FinalPoly)
	u(p.Fri.PowWitness)
	if bad {
		return errors.New("non-canonical element")
	}
	return nil
}

// Verify is the whole native verifier.
func Verify(c *Common, vd *VerifierData, p *Proof, pis []uint64) error {
	if err := CheckShape(c, p, pis); err != nil {
		return err
	}
	if err := Canonical(p); err != nil {
		return err
	}
	red := make([]uint64, len(pis))
	for i := range pis {
		red[i] = Red(pis[i])
	}
	pih := HashNoPad(red)
	ch := GetChallenges(c, pih, vd, p)
	if err := VerifyPlonk(c, ch, &p.Openings, pih); err != nil {
		return err
	}
	return VerifyFri(c, ch.Zeta, p.Openings.Batches(), &ch.Fri, [][]fr.Element{vd.ConstantsSigmasCap, p.WiresCap, p.ZsCap, p.QuotientCap}, &p.Fri)
}

// CheckShape is the part of the shape that the FRI check does not see.
func CheckShape(c *Common, p *Proof, pis []uint64) error {
	if len(pis) != c.NumPublicInputs {
		return errors.New("shape: number of public inputs")
	}
	for _, cap := range [][]fr.Element{p.WiresCap, p.ZsCap, p.QuotientCap} {
		if len(cap) != 1<<c.CapHeight {
			return errors.New("shape: cap")
		}
	}
	o := &p.Openings
	for _, x := range [][2]int{
		{len(o.Constants), c.NumConstants}, {len(o.Sigmas), c.NumRouted}, {len(o.Wires), c.NumWires},
		{len(o.Zs), c.NumChallenges}, {len(o.ZsNext), c.NumChallenges},
		{len(o.PartialProducts), c.NumChallenges * c.NumPartialProducts}, {len(o.Quotient), c.NumChallenges * c.Q},
	} {
		if x[0] != x[1] {
			return errors.New("shape: number of openings")
		}
	}
	return nil
}
