DEFS = []
def B(id, property, needs, breaks, pkg, edits, demo, **k):
    DEFS.append(dict(id=id, property=property, needs=needs, breaks=breaks, pkg=pkg, edits=edits, demo=demo, **k))

GLB = 'goldilocks/base.go'; QE = 'goldilocks/quadratic_extension.go'; FRI = 'fri/fri.go'; FU = 'fri/fri_utils.go'
IMP = 'import (\n"testing"\n"math/big"\n"github.com/consensys/gnark/constraint/solver"\n"github.com/consensys/gnark/frontend"\n%s)\nvar _ = big.NewInt\nvar _ solver.Hint\nvar _ frontend.API\n'
def imp(*x): return IMP % ''.join(l + '\n' for l in x)
RI = '"github.com/succinctlabs/gnark-plonky2-verifier/%s"'
GL = 'gl ' + RI % 'goldilocks'
CALL = r'''
func refused(f func()) (r bool) {
	defer func() { if recover() != nil { r = true } }()
	f()
	return
}
'''

# ---------------------------------------------------------------- C01
B('c01-no-reduction-layer', 'C01', 'a circuit so small that FRI has no reduction layer',
  'a valid proof without folding steps is refused when the verifier is built', 'fri',
  [(FU, 'if len(steps) != len(params.ReductionArityBits) {', 'if len(steps) == 0 || len(steps) != len(params.ReductionArityBits) {')],
  imp(RI % 'types', RI % 'variables', GL) + CALL + r'''
func TestZZDemo(t *testing.T) {
	p := &types.FriParams{DegreeBits: 1, Config: types.FriConfig{RateBits: 3, CapHeight: 4, NumQueryRounds: 1}}
	proof := &variables.FriProof{FinalPoly: variables.NewPolynomialCoeffs(2), QueryRoundProofs: []variables.FriQueryRound{{
		InitialTreesProof: variables.FriInitialTreeProof{EvalsProofs: []variables.FriEvalProof{{Elements: []gl.Variable{gl.Zero()}}}}}}}
	if refused(func() { validateFriProofShape(proof, InstanceInfo{Oracles: []OracleInfo{{NumPolys: 1}}}, p) }) {
		t.Fatal("a well-formed proof without reduction layers is refused")
	}
}
''')
# ---------------------------------------------------------------- C02
B('c02-constants-tree', 'C02', 'a prover that lies about the selector or sigma polynomials in the queried leaves',
  'the openings of the constants/sigmas oracle are not authenticated: any circuit can be passed off as this one', 'verifier',
  [(FRI, 'for i := 0; i < len(initialMerkleCaps); i++ {', 'for i := len(initialMerkleCaps) - 1; i > 0; i-- {')],
  imp(RI % 'types', RI % 'variables', '"math/big"').replace('"math/big"\n', '', 1) + r'''
func TestZZDemo(t *testing.T) {
	cd := types.ReadCommonCircuitData("../testdata/step/common_circuit_data.json")
	p := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("../testdata/step/proof_with_public_inputs.json"))
	v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("../testdata/step/verifier_only_circuit_data.json"))
	for i := range v.ConstantSigmasCap {
		v.ConstantSigmasCap[i] = new(big.Int).SetUint64(uint64(i))
	}
	if err := demoRun(nil, func(api frontend.API) { NewVerifierChip(api, cd).Verify(p.Proof, p.PublicInputs, v) }); err == nil {
		t.Fatal("accepted against verifier data with another constants and sigmas cap")
	}
}
''')
B('c02-reduce-192', 'C02', 'a malicious prover who wraps a reduction around the outer field',
  'Reduce bounds the quotient by 192 bits, so p*q+r can exceed the BN254 modulus and any value can be reduced to a wrong element', 'goldilocks',
  [(GLB, 'var RANGE_CHECK_NB_BITS int = 144', 'var RANGE_CHECK_NB_BITS int = 192')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	h := map[string]solver.Hint{"ReduceHint": func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		out[0].DivMod(new(big.Int).Add(in[0], demoR), demoP, out[1])
		return nil
	}}
	err := demoRun(h, func(api frontend.API) { New(api).Reduce(NewVariable(5)) })
	if err == nil {
		t.Fatal("5 was reduced to something else")
	}
}
''')
# ---------------------------------------------------------------- C03
B('c03-root-cache', 'C03', 'asking for the roots of order 1 and 2^32 in one process',
  'roots of unity are memoised in a table with one entry too few: orders 0 and 32 share one', 'goldilocks',
  [(GLB, '''// Computes the n'th primitive root of unity for the Goldilocks field.
''', '''// The roots of unity computed so far.
var rootsMutex sync.Mutex
var roots [32]*goldilocks.Element

// Computes the n'th primitive root of unity for the Goldilocks field.
'''), (GLB, '''	res := goldilocks.NewElement(POWER_OF_TWO_GENERATOR.Uint64())
''', '''	rootsMutex.Lock()
	defer rootsMutex.Unlock()
	if root := roots[nLog%TWO_ADICITY]; root != nil {
		return *root
	}
	res := goldilocks.NewElement(POWER_OF_TWO_GENERATOR.Uint64())
'''), (GLB, '''		res.Square(&res)
	}
	return res
''', '''		res.Square(&res)
	}
	cached := res
	roots[nLog%TWO_ADICITY] = &cached
	return res
''')],
  r'''import "testing"
func TestZZDemo(t *testing.T) {
	a, b := PrimitiveRootOfUnity(0), PrimitiveRootOfUnity(32)
	if !a.IsOne() || b.Uint64() != POWER_OF_TWO_GENERATOR.Uint64() {
		t.Fatal(a, b)
	}
}
''', prelude=False)
B('c03-inverse-flag', 'C03', 'inverting zero', 'the invertibility flag of zero is not reported: it is always 1', 'goldilocks',
  [(GLB, '	return inverse, hasInv\n}\n\n// The hint used to compute Inverse.', '	return inverse, p.api.Sub(1, p.api.IsZero(productToCheck))\n}\n\n// The hint used to compute Inverse.')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		_, ok := New(api).Inverse(Zero())
		if demoVal(api, ok).Sign() != 0 {
			panic("zero is reported as invertible")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
# ---------------------------------------------------------------- C04
B('c04-muladd-quotient', 'C04', 'a malicious MulAdd quotient that wraps around the outer field',
  'the quotient of MulAdd is bounded by 192 bits instead of being a field element', 'goldilocks',
  [(GLB, '	p.RangeCheck(quotient)\n', '	p.RangeCheckWithMaxBits(quotient, 192)\n')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	h := map[string]solver.Hint{"MulAddHint": func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		x := new(big.Int).Mul(in[0], in[1])
		out[0].DivMod(x.Add(x, in[2]).Add(x, demoR), demoP, out[1])
		return nil
	}}
	if err := demoRun(h, func(api frontend.API) { New(api).MulAdd(NewVariable(3), NewVariable(4), NewVariable(5)) }); err == nil {
		t.Fatal("3*4+5 can be something else")
	}
}
''')
B('c04-inverse-range', 'C04', 'a malicious inverse hint that returns x^-1 + p, for small x',
  'the inverse is not range checked, so its representative is not forced to be canonical', 'goldilocks',
  [(GLB, '	p.RangeCheck(inverse)\n\n', '\n')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	h := map[string]solver.Hint{"MulAddHint": demoMulAdd, "InverseHint": func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		out[0].ModInverse(in[0], demoP)
		out[0].Add(out[0], demoP)
		return nil
	}}
	if err := demoRun(h, func(api frontend.API) { New(api).Inverse(NewVariable(3)) }); err == nil {
		t.Fatal("a non-canonical inverse of 3 is accepted")
	}
}
''')
# ---------------------------------------------------------------- C05
B('c05-wide-limb', 'C05', 'a value of more than 64 bits', 'the high limb may have 48 bits, so values up to 2^80 pass as field elements', 'goldilocks',
  [(GLB, '	p.rangeCheckerCheck(mostSigLimb, 32)\n', '	p.rangeCheckerCheck(mostSigLimb, 48)\n')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	x := new(big.Int).Lsh(big.NewInt(1), 64)
	if err := demoRun(map[string]solver.Hint{"SplitLimbsHint": demoSplit}, func(api frontend.API) { New(api).RangeCheck(NewVariable(x)) }); err == nil {
		t.Fatal("2^64 passes the range check")
	}
}
''')
B('c05-unaligned-width', 'C05', 'the commitment-based checker and a width that is not a multiple of 16',
  'the width is rounded up instead of being refused: values beyond the requested width pass', 'goldilocks',
  [(GLB, '''		if v.bits%nbBits != 0 {
			panic("v.bits is not nbBits aligned")
		}

		p.rangeChecker.Check(v.v, v.bits)
''', '''		p.rangeChecker.Check(v.v, decompSize(v.bits, nbBits)*nbBits)
''')],
  r'''
import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

type commitDemo struct {
	X [512]frontend.Variable
	N uint64 `gnark:"-"`
}

func (c *commitDemo) Define(api frontend.API) error {
	p := New(api)
	for i := 0; i < 130; i++ {
		for _, x := range c.X {
			p.RangeCheckWithMaxBits(NewVariable(x), 64)
		}
	}
	p.RangeCheckWithMaxBits(NewVariable(c.X[0]), c.N)
	return nil
}

func build(n uint64) (ok bool) {
	defer func() { recover() }()
	_, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &commitDemo{N: n})
	return err == nil
}

func TestZZDemo(t *testing.T) {
	if !build(48) {
		t.Skip("the commitment-based checker is not usable for this many checks")
	}
	if build(62) {
		t.Fatal("a 62-bit check is neither refused nor exact")
	}
}
''', prelude=False)
B('c05-free-digits', 'C05', 'the bit decomposition checker and a prover whose digits are not bits',
  'the digits are not constrained to be boolean, so every value passes', 'goldilocks',
  [('goldilocks/utils.go', 'bits.WithNbDigits(nbBits))', 'bits.WithNbDigits(nbBits), bits.WithUnconstrainedOutputs())')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	h := map[string]solver.Hint{"nBits": func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		for i := range out {
			out[i].SetUint64(0)
		}
		out[0].Set(in[0])
		return nil
	}}
	if err := demoRun(h, func(api frontend.API) { New(api).RangeCheckWithMaxBits(NewVariable(1<<40), 32) }); err == nil {
		t.Fatal("2^40 passes a 32-bit check")
	}
}
''')
# ---------------------------------------------------------------- C06
B('c06-exp-32', 'C06', 'an exponent of 2^32 or more', 'the high half of the exponent is ignored', 'goldilocks',
  [(QE, 'i < bits.Len64(exponent); i++', 'i < bits.Len32(uint32(exponent)); i++')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		a := NewVariable(3).ToQuadraticExtension()
		e := uint64(5<<32 + 9)
		want := new(big.Int).Exp(big.NewInt(3), new(big.Int).SetUint64(e), demoP)
		if got := New(api).ExpExtension(a, e); demoVal(api, got[0].Limb).Cmp(want) != 0 {
			panic("wrong power")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
B('c06-inverse-zero', 'C06', 'inverting or dividing by the zero extension element',
  'the inversion of zero is no longer refused (the flag says so, but DivExtension returns an unconstrained quotient)', 'goldilocks',
  [(QE, '	aIsZero := p.IsZero(a)\n	p.api.AssertIsEqual(aIsZero, frontend.Variable(0))\n', '')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	if err := demoRun(nil, func(api frontend.API) { New(api).DivExtension(OneExtension(), ZeroExtension()) }); err == nil {
		t.Fatal("1/0 is not refused")
	}
}
''')
B('c06-empty-reduce', 'C06', 'reducing an empty list of terms', 'ReduceWithPowers indexes before the start of an empty list', 'goldilocks',
  [(QE, '	sum := ZeroExtension()\n	for i := len(terms) - 1; i >= 0; i-- {', '	sum := p.ReduceExtension(terms[len(terms)-1])\n	for i := len(terms) - 2; i >= 0; i-- {')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		if got := New(api).ReduceWithPowers(nil, OneExtension()); demoVal(api, got[0].Limb).Sign() != 0 {
			panic("wrong")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
# ---------------------------------------------------------------- C07
B('c07-many-outputs', 'C07', 'asking for more than eight outputs', 'the sponge is not permuted between squeezed blocks', 'poseidon',
  [('poseidon/goldilocks.go', '''				return outputs
			}
		}
		state = c.Poseidon(state)
''', '''				return outputs
			}
		}
''')],
  imp(GL) + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		o := NewGoldilocksChip(api).HashNToMNoPad([]gl.Variable{gl.NewVariable(1)}, 9)
		if demoVal(api, o[0].Limb).Cmp(demoVal(api, o[8].Limb)) == 0 {
			panic("the ninth output repeats the first")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
B('c07-mds-forge', 'C07', 'a malicious prover who wraps a reduction of the MDS layer around the outer field',
  'the sums of the MDS layer are reduced with a 192-bit quotient, so the permutation result is not forced', 'poseidon',
  [('poseidon/goldilocks.go', '	return c.gl.Reduce(res)\n}\n\nfunc (c *GoldilocksChip) MdsRowShfExtension', '	return c.gl.ReduceWithMaxBits(res, 192)\n}\n\nfunc (c *GoldilocksChip) MdsRowShfExtension')],
  imp(GL) + r'''
func TestZZDemo(t *testing.T) {
	calls := 0
	run := func(at int) error {
		calls = 0
		h := map[string]solver.Hint{"ReduceHint": func(_ *big.Int, in []*big.Int, out []*big.Int) error {
			x := new(big.Int).Set(in[0])
			if calls++; calls == at {
				x.Add(x, demoR)
			}
			out[0].DivMod(x, demoP, out[1])
			return nil
		}}
		return demoRun(h, func(api frontend.API) {
			var s GoldilocksState
			for i := range s {
				s[i] = gl.NewVariable(i)
			}
			NewGoldilocksChip(api).Poseidon(s)
		})
	}
	if err := run(0); err != nil {
		t.Fatal(err)
	}
	for i, n := 1, calls; i <= n; i += 5 {
		if run(i) == nil {
			t.Fatal("a wrapped reduction is accepted:", i)
		}
	}
}
''')
# ---------------------------------------------------------------- C08
B('c08-leaf-of-three', 'C08', 'a leaf of exactly three elements', 'such a leaf is hashed instead of packed', 'poseidon',
  [('poseidon/bn254.go', '	if len(input) <= 3 {', '	if len(input) < BN254_SPONGE_RATE {')],
  imp(GL) + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		o := NewBN254Chip(api).HashOrNoop([]gl.Variable{gl.NewVariable(1), gl.NewVariable(0), gl.NewVariable(0)})
		if demoVal(api, o).Cmp(big.NewInt(1)) != 0 {
			panic("three elements are not packed")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
B('c08-second-decomposition', 'C08', 'a digest for which digest + r also has 254 bits, and a prover who uses those bits',
  'the bits of a digest are not compared with the modulus: a digest has two conversions', 'poseidon',
  [('poseidon/bn254.go', '	"github.com/consensys/gnark/frontend"\n', '	"github.com/consensys/gnark/frontend"\n	"github.com/consensys/gnark/std/math/bits"\n'),
   ('poseidon/bn254.go', '	bits := c.api.ToBinary(hash)\n', '	hashBits := bits.ToBinary(c.api, hash, bits.OmitModulusCheck())\n'),
   ('poseidon/bn254.go', 'for i := 0; i < len(bits); i += chunkSize {', 'for i := 0; i < len(hashBits); i += chunkSize {'),
   ('poseidon/bn254.go', 'c.min(len(bits), i+chunkSize)', 'c.min(len(hashBits), i+chunkSize)'),
   ('poseidon/bn254.go', 'bitChunk := bits[i:maxIdx]', 'bitChunk := hashBits[i:maxIdx]')],
  r'''
import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/std/math/bits"
)

type vecDemo struct{ H, Lo frontend.Variable }

func (c *vecDemo) Define(api frontend.API) error {
	api.AssertIsEqual(NewBN254Chip(api).ToVec(c.H)[0].Limb, c.Lo)
	return nil
}

func TestZZDemo(t *testing.T) {
	t.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &vecDemo{})
	if err != nil {
		t.Fatal(err)
	}
	x := new(big.Int).Add(demoR, big.NewInt(7))
	lo := new(big.Int).And(x, new(big.Int).SetUint64(1<<56-1))
	w, _ := frontend.NewWitness(&vecDemo{H: 7, Lo: lo}, ecc.BN254.ScalarField())
	forge := func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		v := new(big.Int).Set(in[0])
		if v.Cmp(big.NewInt(7)) == 0 && len(out) == 254 {
			v = x
		}
		for i := range out {
			out[i].SetUint64(uint64(v.Bit(i)))
		}
		return nil
	}
	var opts []solver.Option
	for _, h := range bits.GetHints() {
		if n := solver.GetHintName(h); n[len(n)-5:] == "nBits" {
			opts = append(opts, solver.OverrideHint(solver.GetHintID(h), forge))
		}
	}
	if len(opts) != 1 {
		t.Fatal("no such hint")
	}
	if _, err := cs.Solve(w, opts...); err == nil {
		t.Fatal("7 was converted to the chunks of 7 + r")
	}
}
''')
# ---------------------------------------------------------------- C09
B('c09-aliased-buffer', 'C09', 'observing part of a list, then something else, then the rest of the same list',
  'the input buffer aliases the observed list, so later observations overwrite elements of the caller that were not observed yet', 'challenger',
  [('challenger/challenger.go', '''	for i := 0; i < len(elements); i++ {
		c.ObserveElement(elements[i])
	}
}

func (c *Chip) ObserveHash''', '''	if len(c.inputBuffer) == 0 && len(elements) < poseidon.SPONGE_RATE {
		// Nothing is pending and nothing will be absorbed yet, so just keep the elements
		c.outputBuffer = make([]gl.Variable, 0)
		c.inputBuffer = elements
		return
	}
	for i := 0; i < len(elements); i++ {
		c.ObserveElement(elements[i])
	}
}

func (c *Chip) ObserveHash''')],
  imp(GL) + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		var xs []gl.Variable
		for i := 0; i < 8; i++ {
			xs = append(xs, gl.NewVariable(i))
		}
		a, b := NewChip(api), NewChip(api)
		for _, i := range []int{0, 1, 2, 7, 3, 4, 5, 6} {
			b.ObserveElement(gl.NewVariable(i))
		}
		a.ObserveElements(xs[:3])
		a.ObserveElement(gl.NewVariable(7))
		a.ObserveElements(xs[3:7])
		api.AssertIsEqual(a.GetChallenge().Limb, b.GetChallenge().Limb)
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
B('c09-bulk-squeeze', 'C09', 'asking for n challenges when fewer than n but more than none are left in the output buffer',
  'the remaining outputs are thrown away instead of being used first', 'challenger',
  [('challenger/challenger.go', '''	challenges := make([]gl.Variable, n)
''', '''	if n <= poseidon.SPONGE_RATE && (len(c.inputBuffer) != 0 || uint64(len(c.outputBuffer)) < n) {
		// Make sure that one block of outputs serves the whole request
		c.duplexing()
	}
	challenges := make([]gl.Variable, n)
''')],
  imp() + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		a, b := NewChip(api), NewChip(api)
		a.GetNChallenges(7)
		x := a.GetNChallenges(2)
		for i := 0; i < 7; i++ {
			b.GetChallenge()
		}
		api.AssertIsEqual(x[0].Limb, b.GetChallenge().Limb)
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
# ---------------------------------------------------------------- C10
EV = r'''
func dq(i uint64) gl.QuadraticExtensionVariable {
	return gl.NewQuadraticExtensionVariable(gl.NewVariable(i%demoP.Uint64()), gl.Zero())
}
func zeroes(n int) (o []gl.QuadraticExtensionVariable) {
	for i := 0; i < n; i++ { o = append(o, dq(0)) }
	return
}
func allZero(api frontend.API, xs []gl.QuadraticExtensionVariable) bool {
	for _, x := range xs {
		if demoVal(api, x[0].Limb).Sign() != 0 || demoVal(api, x[1].Limb).Sign() != 0 { return false }
	}
	return true
}
'''
B('c10-coset-intermediates', 'C10', 'a coset interpolation gate of degree other than the usual 6 for 16 points',
  'the number of intermediate values is computed wrongly for some subgroup sizes and degrees, which drops constraints and shifts wires', 'plonk/gates',
  [('plonk/gates/coset_interpolation_gate.go', '	return (g.numPoints() - 2) / (g.degree - 1)\n', '	return (g.numPoints() - 1) / g.degree\n')],
  imp(GL, '"github.com/consensys/gnark-crypto/field/goldilocks"', RI % 'poseidon') + EV + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		g := NewCosetInterpolationGate(4, 8, make([]goldilocks.Element, 16))
		o := g.EvalUnfiltered(api, gl.New(api), *NewEvaluationVars(nil, zeroes(80), poseidon.GoldilocksHashOut{}))
		if len(o) != 2+2*2*2+2 {
			panic("wrong number of constraints")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
B('c10-third-constant', 'C10', 'a random access gate with three or more extra constants',
  'the third and later extra constants are compared with the second constant', 'plonk/gates',
  [('plonk/gates/random_access_gate.go', 'glApi.SubExtension(vars.localConstants[i], vars', 'glApi.SubExtension(vars.localConstants[i%2], vars')],
  imp(GL, RI % 'poseidon') + EV + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		g := NewRandomAccessGate(1, 1, 3)
		ws := zeroes(8)
		ws[4], ws[5], ws[6] = dq(11), dq(12), dq(13)
		o := g.EvalUnfiltered(api, gl.New(api), *NewEvaluationVars([]gl.QuadraticExtensionVariable{dq(11), dq(12), dq(13)}, ws, poseidon.GoldilocksHashOut{}))
		if !allZero(api, o) {
			panic("a correct row is not satisfied")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
B('c10-base-four', 'C10', 'a base sum gate with a base other than two', 'limbs are only required to be boolean-or-base-1 instead of any digit: the product runs over every second digit', 'plonk/gates',
  [('plonk/gates/base_sum_gate.go', 'for i := uint64(0); i < g.base; i++ {', 'for i := uint64(0); i < g.base; i += (g.base + 1) / 2 {')],
  imp(GL, RI % 'poseidon') + EV + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		g := NewBaseSumGate(2, 4)
		ws := []gl.QuadraticExtensionVariable{dq(3 + 4*1), dq(3), dq(1)}
		if !allZero(api, g.EvalUnfiltered(api, gl.New(api), *NewEvaluationVars(nil, ws, poseidon.GoldilocksHashOut{}))) {
			panic("a correct row is not satisfied")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
# ---------------------------------------------------------------- C11
B('c11-any-degree', 'C11', 'an identifier of a random access gate over another extension degree', 'the gate is accepted as the degree-2 one', 'plonk/gates',
  [('plonk/gates/random_access_gate.go', '	if baseInt != gl.D {', '	if baseInt < gl.D {')],
  r'''import "testing"
''' + CALL + r'''
func TestZZDemo(t *testing.T) {
	id := "RandomAccessGate { bits: 2, num_copies: 13, num_extra_constants: 2, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D="
	if refused(func() { GateInstanceFromId(id + "2>") }) || !refused(func() { GateInstanceFromId(id + "4>") }) {
		t.Fatal("D=2 must be accepted and D=4 refused")
	}
}
''', prelude=False)
B('c11-small-params', 'C11', 'a gate whose parameter does not fit in seven bits', 'parameters are parsed as 8-bit numbers, larger ones are refused', 'plonk/gates',
  [('plonk/gates/reducing_gate.go', 'numCoeffsInt, err := strconv.Atoi(numCoeffs)', 'numCoeffsInt, err := strconv.ParseInt(numCoeffs, 10, 8)')],
  r'''import "testing"
func TestZZDemo(t *testing.T) {
	if GateInstanceFromId("ReducingGate { num_coeffs: 200 }").(*ReducingGate).numCoeffs != 200 {
		t.Fatal("wrong parameter")
	}
}
''', prelude=False)
# ---------------------------------------------------------------- C12
B('c12-dropped-constraints', 'C12', 'a description whose num_gate_constraints is smaller than the number of constraints of a gate',
  'the surplus constraints are silently dropped instead of the description being refused', 'plonk/gates',
  [('plonk/gates/evaluate_gates.go', '				panic("num_constraints() gave too low of a number")\n', '				break\n')],
  imp(GL, RI % 'poseidon') + EV + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		chip := NewEvaluateGatesChip(api, []Gate{NewConstantGate(2)}, 1, *NewSelectorsInfo([]uint64{0}, []uint64{0}, []uint64{1}))
		chip.EvaluateGateConstraints(*NewEvaluationVars([]gl.QuadraticExtensionVariable{dq(0), dq(5), dq(5)}, []gl.QuadraticExtensionVariable{dq(5), dq(6)}, poseidon.GoldilocksHashOut{}))
	})
	if err == nil {
		t.Fatal("a violated constraint was dropped")
	}
}
''')
