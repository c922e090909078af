package ref

import "github.com/consensys/gnark-crypto/ecc/bn254/fr"

// Common mirrors Plonky2's CommonCircuitData.
type Common struct {
	NumWires, NumRouted int
	NumConstants        int // selectors + gate constants
	NumChallenges       int
	DegreeBits          int
	RateBits, CapHeight int
	PowBits, NumQueries int
	Arities             []int
	Gates               []Gate
	SelectorIndices     []int
	Groups              [][2]int
	Q                   int // quotient degree factor
	NumGateConstraints  int
	NumPublicInputs     int
	KIs                 []uint64
	NumPartialProducts  int
}

func (c *Common) LdeBits() int { return c.DegreeBits + c.RateBits }
func (c *Common) FinalLen() int {
	n := c.DegreeBits
	for _, a := range c.Arities {
		n -= a
	}
	return 1 << n
}

// OracleSizes: number of polynomials in the four initial trees.
func (c *Common) OracleSizes() [4]int {
	return [4]int{
		c.NumConstants + c.NumRouted,
		c.NumWires,
		c.NumChallenges * (1 + c.NumPartialProducts),
		c.NumChallenges * c.Q,
	}
}

type Openings struct {
	Constants, Sigmas, Wires, Zs, ZsNext, PartialProducts, Quotient []E
}

// Batches lists the opened values in FRI order: everything at zeta, then Zs at g*zeta.
func (o *Openings) Batches() [2][]E {
	var a []E
	for _, l := range [][]E{o.Constants, o.Sigmas, o.Wires, o.Zs, o.PartialProducts, o.Quotient} {
		a = append(a, l...)
	}
	return [2][]E{a, append([]E(nil), o.ZsNext...)}
}

// Lists returns pointers to the seven lists with their names.
func (o *Openings) Lists() ([]string, []*[]E) {
	return []string{"constants", "sigmas", "wires", "zs", "zs_next", "partial_products", "quotient"},
		[]*[]E{&o.Constants, &o.Sigmas, &o.Wires, &o.Zs, &o.ZsNext, &o.PartialProducts, &o.Quotient}
}

type InitialOpening struct {
	Leaf     []uint64
	Siblings []fr.Element
}
type Step struct {
	Evals    []E
	Siblings []fr.Element
}
type Query struct {
	Initial []InitialOpening
	Steps   []Step
}
type FriProof struct {
	CommitCaps [][]fr.Element
	Queries    []Query
	FinalPoly  []E
	PowWitness uint64
}
type Proof struct {
	WiresCap, ZsCap, QuotientCap []fr.Element
	Openings                     Openings
	Fri                          FriProof
}
type VerifierData struct {
	ConstantsSigmasCap []fr.Element
	Digest             fr.Element
}
type FriChallenges struct {
	Alpha   E
	Betas   []E
	Pow     uint64
	Indices []uint64
}
type Challenges struct {
	Betas, Gammas, Alphas []uint64
	Zeta                  E
	Fri                   FriChallenges
}

func cpE(x []E) []E                   { return append([]E(nil), x...) }
func cpU(x []uint64) []uint64         { return append([]uint64(nil), x...) }
func cpF(x []fr.Element) []fr.Element { return append([]fr.Element(nil), x...) }

func (p *FriProof) Clone() *FriProof {
	q := &FriProof{FinalPoly: cpE(p.FinalPoly), PowWitness: p.PowWitness}
	for _, c := range p.CommitCaps {
		q.CommitCaps = append(q.CommitCaps, cpF(c))
	}
	for _, r := range p.Queries {
		var n Query
		for _, i := range r.Initial {
			n.Initial = append(n.Initial, InitialOpening{cpU(i.Leaf), cpF(i.Siblings)})
		}
		for _, s := range r.Steps {
			n.Steps = append(n.Steps, Step{cpE(s.Evals), cpF(s.Siblings)})
		}
		q.Queries = append(q.Queries, n)
	}
	return q
}
func (o *Openings) Clone() Openings {
	return Openings{cpE(o.Constants), cpE(o.Sigmas), cpE(o.Wires), cpE(o.Zs), cpE(o.ZsNext), cpE(o.PartialProducts), cpE(o.Quotient)}
}
func (p *Proof) Clone() *Proof {
	return &Proof{cpF(p.WiresCap), cpF(p.ZsCap), cpF(p.QuotientCap), p.Openings.Clone(), *p.Fri.Clone()}
}
func (v *VerifierData) Clone() *VerifierData {
	return &VerifierData{cpF(v.ConstantsSigmasCap), v.Digest}
}
func (c *FriChallenges) Clone() *FriChallenges {
	return &FriChallenges{c.Alpha, cpE(c.Betas), c.Pow, cpU(c.Indices)}
}
func (c *Challenges) Clone() *Challenges {
	return &Challenges{cpU(c.Betas), cpU(c.Gammas), cpU(c.Alphas), c.Zeta, *c.Fri.Clone()}
}
