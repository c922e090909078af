// Package conv turns reference values into the repository's circuit types and back.
package conv

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifharness/eng"
	"verifharness/ref"
)

// C maps values to variables. Each returned variable is a fresh object.
type C struct {
	U func(uint64) frontend.Variable
	F func(fr.Element) frontend.Variable
}

// Engine makes engine variables.
var Engine = C{eng.U, func(x fr.Element) frontend.Variable { return eng.New(x) }}

// Const makes plain constants, as the JSON loader does.
var Const = C{func(x uint64) frontend.Variable { return x }, func(x fr.Element) frontend.Variable {
	return x.BigInt(new(big.Int))
}}

func (c C) Gl(x uint64) gl.Variable { return gl.NewVariable(c.U(x)) }
func (c C) Gls(x []uint64) []gl.Variable {
	o := make([]gl.Variable, len(x))
	for i := range x {
		o[i] = c.Gl(x[i])
	}
	return o
}
func (c C) E(x ref.E) gl.QuadraticExtensionVariable {
	return gl.NewQuadraticExtensionVariable(c.Gl(x[0]), c.Gl(x[1]))
}
func (c C) Es(x []ref.E) []gl.QuadraticExtensionVariable {
	o := make([]gl.QuadraticExtensionVariable, len(x))
	for i := range x {
		o[i] = c.E(x[i])
	}
	return o
}
func (c C) A(x ref.A) gl.QuadraticExtensionAlgebraVariable {
	return gl.QuadraticExtensionAlgebraVariable{c.E(x[0]), c.E(x[1])}
}
func (c C) Hash(h [4]uint64) poseidon.GoldilocksHashOut {
	var o poseidon.GoldilocksHashOut
	for i := range o {
		o[i] = c.Gl(h[i])
	}
	return o
}
func (c C) Fs(x []fr.Element) []poseidon.BN254HashOut {
	o := make([]poseidon.BN254HashOut, len(x))
	for i := range x {
		o[i] = c.F(x[i])
	}
	return o
}
func (c C) Caps(x [][]fr.Element) []variables.FriMerkleCap {
	o := make([]variables.FriMerkleCap, len(x))
	for i := range x {
		o[i] = c.Fs(x[i])
	}
	return o
}
func (c C) Openings(o *ref.Openings) variables.OpeningSet {
	return variables.OpeningSet{
		Constants: c.Es(o.Constants), PlonkSigmas: c.Es(o.Sigmas), Wires: c.Es(o.Wires),
		PlonkZs: c.Es(o.Zs), PlonkZsNext: c.Es(o.ZsNext), PartialProducts: c.Es(o.PartialProducts),
		QuotientPolys: c.Es(o.Quotient),
	}
}
func (c C) FriOpenings(b [2][]ref.E) fri.Openings {
	return fri.Openings{Batches: []fri.OpeningBatch{{Values: c.Es(b[0])}, {Values: c.Es(b[1])}}}
}
func (c C) Fri(p *ref.FriProof) variables.FriProof {
	o := variables.FriProof{
		CommitPhaseMerkleCaps: c.Caps(p.CommitCaps),
		FinalPoly:             variables.PolynomialCoeffs{Coeffs: c.Es(p.FinalPoly)},
		PowWitness:            c.Gl(p.PowWitness),
	}
	for _, q := range p.Queries {
		var r variables.FriQueryRound
		for _, i := range q.Initial {
			r.InitialTreesProof.EvalsProofs = append(r.InitialTreesProof.EvalsProofs,
				variables.FriEvalProof{Elements: c.Gls(i.Leaf), MerkleProof: variables.FriMerkleProof{Siblings: c.Fs(i.Siblings)}})
		}
		for _, s := range q.Steps {
			r.Steps = append(r.Steps, variables.FriQueryStep{Evals: c.Es(s.Evals), MerkleProof: variables.FriMerkleProof{Siblings: c.Fs(s.Siblings)}})
		}
		o.QueryRoundProofs = append(o.QueryRoundProofs, r)
	}
	return o
}
func (c C) Proof(p *ref.Proof) variables.Proof {
	return variables.Proof{
		WiresCap: c.Fs(p.WiresCap), PlonkZsPartialProductsCap: c.Fs(p.ZsCap), QuotientPolysCap: c.Fs(p.QuotientCap),
		Openings: c.Openings(&p.Openings), OpeningProof: c.Fri(&p.Fri),
	}
}
func (c C) VD(v *ref.VerifierData) variables.VerifierOnlyCircuitData {
	return variables.VerifierOnlyCircuitData{ConstantSigmasCap: c.Fs(v.ConstantsSigmasCap), CircuitDigest: c.F(v.Digest)}
}
func (c C) FriCh(f *ref.FriChallenges) variables.FriChallenges {
	return variables.FriChallenges{FriAlpha: c.E(f.Alpha), FriBetas: c.Es(f.Betas), FriPowResponse: c.Gl(f.Pow), FriQueryIndices: c.Gls(f.Indices)}
}
func (c C) Challenges(f *ref.Challenges) variables.ProofChallenges {
	return variables.ProofChallenges{PlonkBetas: c.Gls(f.Betas), PlonkGammas: c.Gls(f.Gammas), PlonkAlphas: c.Gls(f.Alphas),
		PlonkZeta: c.E(f.Zeta), FriChallenges: c.FriCh(&f.Fri)}
}

func us(x []int) []uint64 {
	o := make([]uint64, len(x))
	for i := range x {
		o[i] = uint64(x[i])
	}
	return o
}

// Common builds the repository's circuit description.
func Common(c *ref.Common) types.CommonCircuitData {
	var o types.CommonCircuitData
	fc := types.FriConfig{RateBits: uint64(c.RateBits), CapHeight: uint64(c.CapHeight), ProofOfWorkBits: uint64(c.PowBits), NumQueryRounds: uint64(c.NumQueries)}
	o.Config = types.CircuitConfig{NumWires: uint64(c.NumWires), NumRoutedWires: uint64(c.NumRouted),
		NumConstants: uint64(c.NumConstants - len(c.Groups)), UseBaseArithmeticGate: true, SecurityBits: 100,
		NumChallenges: uint64(c.NumChallenges), MaxQuotientDegreeFactor: uint64(c.Q), FriConfig: fc}
	o.FriParams = types.FriParams{Config: fc, DegreeBits: uint64(c.DegreeBits), ReductionArityBits: us(c.Arities)}
	o.DegreeBits = uint64(c.DegreeBits)
	for _, g := range c.Gates {
		o.GateIds = append(o.GateIds, g.ID())
	}
	o.SelectorsInfo = Selectors(c.SelectorIndices, c.Groups)
	o.QuotientDegreeFactor = uint64(c.Q)
	o.NumGateConstraints = uint64(c.NumGateConstraints)
	o.NumConstants = uint64(c.NumConstants)
	o.NumPublicInputs = uint64(c.NumPublicInputs)
	o.KIs = append([]uint64(nil), c.KIs...)
	o.NumPartialProducts = uint64(c.NumPartialProducts)
	return o
}

func Selectors(idx []int, groups [][2]int) gates.SelectorsInfo {
	var s, e []uint64
	for _, g := range groups {
		s = append(s, uint64(g[0]))
		e = append(e, uint64(g[1]))
	}
	return *gates.NewSelectorsInfo(us(idx), s, e)
}

// RdGl reads a Goldilocks variable's integer value; ok is false when it is not canonical.
func RdGl(v gl.Variable) (uint64, bool) {
	x := eng.Get(v.Limb)
	if !x.IsUint64() || x.Uint64() >= ref.P {
		return 0, false
	}
	return x.Uint64(), true
}
func RdE(v gl.QuadraticExtensionVariable) (ref.E, bool) {
	a, ok := RdGl(v[0])
	b, ok2 := RdGl(v[1])
	return ref.E{a, b}, ok && ok2
}
func RdEs(v []gl.QuadraticExtensionVariable) ([]ref.E, bool) {
	o := make([]ref.E, len(v))
	for i := range v {
		x, ok := RdE(v[i])
		if !ok {
			return nil, false
		}
		o[i] = x
	}
	return o, true
}
func RdGls(v []gl.Variable) ([]uint64, bool) {
	o := make([]uint64, len(v))
	for i := range v {
		x, ok := RdGl(v[i])
		if !ok {
			return nil, false
		}
		o[i] = x
	}
	return o, true
}

// ModP reduces the outer-field value of v modulo p.
func ModP(v gl.Variable) uint64 {
	return new(big.Int).Mod(eng.Get(v.Limb), eng.P).Uint64()
}
