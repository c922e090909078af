DEFS = []
def B(id, property, needs, breaks, pkg, edits, demo, **k):
    DEFS.append(dict(id=id, property=property, needs=needs, breaks=breaks, pkg=pkg, edits=edits, demo=demo, **k))

GLB = 'goldilocks/base.go'; QE = 'goldilocks/quadratic_extension.go'; FRI = 'fri/fri.go'; FU = 'fri/fri_utils.go'; PL = 'plonk/plonk.go'; CH = 'challenger/challenger.go'; VF = 'verifier/verifier.go'
EG = 'plonk/gates/evaluate_gates.go'
IMP = 'import (\n"testing"\n"math/big"\n"github.com/consensys/gnark/constraint/solver"\n"github.com/consensys/gnark/frontend"\n%s)\nvar _ = big.NewInt\nvar _ solver.Hint\nvar _ frontend.API\n'
def imp(*x): return IMP % ''.join(l + '\n' for l in x)
RI = '"github.com/succinctlabs/gnark-plonky2-verifier/%s"'
GL = 'gl ' + RI % 'goldilocks'
EV = r'''
func dq(x uint64) gl.QuadraticExtensionVariable { return gl.NewVariable(x).ToQuadraticExtension() }
func allZero(api frontend.API, l []gl.QuadraticExtensionVariable) bool {
	for _, v := range l {
		for _, x := range v {
			if demoVal(api, x.Limb).Sign() != 0 { return false }
		}
	}
	return true
}
'''
STEP = r'''
func stepData() (types.CommonCircuitData, variables.ProofWithPublicInputs, variables.VerifierOnlyCircuitData) {
	return types.ReadCommonCircuitData("../testdata/step/common_circuit_data.json"),
		variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("../testdata/step/proof_with_public_inputs.json")),
		variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("../testdata/step/verifier_only_circuit_data.json"))
}
'''
# ---------------------------------------------------------------- C01
# ---------------------------------------------------------------- C12
B('c12-two-selectors', 'C12', 'exactly two selectors and a row whose gate is in the other group',
  'the filters do not vanish on the unused marker when there are exactly two selectors', 'plonk/gates',
  [(EG, 'numSelectors > 1', 'numSelectors > 2')],
  imp(GL, RI % 'poseidon') + EV + r'''
func TestZZDemo(t *testing.T) {
	err := demoRun(nil, func(api frontend.API) {
		gates := []Gate{NewNoopGate(), NewNoopGate(), NewConstantGate(1)}
		chip := NewEvaluateGatesChip(api, gates, 1, *NewSelectorsInfo([]uint64{0, 0, 1}, []uint64{0, 2}, []uint64{2, 3}))
		// the row of a noop: selector 0 names it, selector 1 is unused; the constant and the wire differ
		o := chip.EvaluateGateConstraints(*NewEvaluationVars([]gl.QuadraticExtensionVariable{dq(0), dq(UNUSED_SELECTOR), dq(5)}, []gl.QuadraticExtensionVariable{dq(6)}, poseidon.GoldilocksHashOut{}))
		if !allZero(api, o) {
			panic("the constant gate counts in a noop row")
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')
# ---------------------------------------------------------------- C13
PLONK = imp(GL, RI % 'poseidon', RI % 'types', RI % 'variables', RI % 'plonk/gates') + r'''
// a circuit without gates whose single routed wire is a copy of itself
func check(api frontend.API, challenges uint64, quotient []gl.QuadraticExtensionVariable) {
	cd := types.CommonCircuitData{DegreeBits: 3, QuotientDegreeFactor: 1, KIs: []uint64{1}, NumGateConstraints: 0, SelectorsInfo: *gates.NewSelectorsInfo(nil, nil, nil)}
	cd.Config.NumChallenges, cd.Config.NumRoutedWires, cd.Config.NumWires = challenges, 1, 1
	zeta := gl.NewVariable(3).ToQuadraticExtension()
	var ch variables.ProofChallenges
	o := variables.OpeningSet{Wires: []gl.QuadraticExtensionVariable{gl.OneExtension()}, PlonkSigmas: []gl.QuadraticExtensionVariable{zeta}, QuotientPolys: quotient}
	ch.PlonkZeta = zeta
	for i := uint64(0); i < challenges; i++ {
		ch.PlonkBetas = append(ch.PlonkBetas, gl.NewVariable(5+i))
		ch.PlonkGammas = append(ch.PlonkGammas, gl.NewVariable(7+i))
		ch.PlonkAlphas = append(ch.PlonkAlphas, gl.NewVariable(9+i))
		o.PlonkZs = append(o.PlonkZs, gl.OneExtension())
		o.PlonkZsNext = append(o.PlonkZsNext, gl.OneExtension())
	}
	z := gl.Zero()
	NewPlonkChip(api, cd).Verify(ch, o, poseidon.GoldilocksHashOut{z, z, z, z})
}
func qe(a, b uint64) gl.QuadraticExtensionVariable { return gl.NewQuadraticExtensionVariable(gl.NewVariable(a), gl.NewVariable(b)) }
'''
B('c13-first-limb', 'C13', 'a quotient opening that is wrong in the second limb only',
  'the vanishing identity is compared in the first limb only', 'plonk',
  [(PL, '		glApi.AssertIsEqualExtension(vanishingPolysZeta[i], prod)\n', '		glApi.AssertIsEqual(vanishingPolysZeta[i][0], prod[0])\n')],
  PLONK + r'''
func TestZZDemo(t *testing.T) {
	if err := demoRun(nil, func(api frontend.API) { check(api, 1, []gl.QuadraticExtensionVariable{qe(0, 0)}) }); err != nil {
		t.Fatal(err)
	}
	if err := demoRun(nil, func(api frontend.API) { check(api, 1, []gl.QuadraticExtensionVariable{qe(0, 5)}) }); err == nil {
		t.Fatal("a wrong quotient was accepted")
	}
}
''')
B('c13-two-rounds', 'C13', 'three or more challenge rounds, the identity broken in the third only',
  'the identity is enforced in the first two challenge rounds only', 'plonk',
  [(PL, '	for i := 0; i < len(vanishingPolysZeta); i++ {\n', '	for i := 0; i < len(vanishingPolysZeta) && i < 2; i++ {\n')],
  PLONK + r'''
func TestZZDemo(t *testing.T) {
	if err := demoRun(nil, func(api frontend.API) { check(api, 3, []gl.QuadraticExtensionVariable{qe(0, 0), qe(0, 0), qe(0, 0)}) }); err != nil {
		t.Fatal(err)
	}
	if err := demoRun(nil, func(api frontend.API) { check(api, 3, []gl.QuadraticExtensionVariable{qe(0, 0), qe(0, 0), qe(4, 5)}) }); err == nil {
		t.Fatal("a wrong quotient was accepted in the third round")
	}
}
''')
B('c13-last-quotient-chunk', 'C13', 'more than eight quotient chunks per challenge',
  'only the first eight quotient chunks of a challenge are recombined', 'plonk',
  [(PL, '		quotientPolysEndIdx := quotientPolysStartIdx + int(p.commonData.QuotientDegreeFactor)\n', '''		quotientPolysEndIdx := quotientPolysStartIdx + int(p.commonData.QuotientDegreeFactor)
		if quotientPolysEndIdx > quotientPolysStartIdx+1<<p.commonData.Config.FriConfig.RateBits {
			quotientPolysEndIdx = quotientPolysStartIdx + 1<<p.commonData.Config.FriConfig.RateBits
		}
''')],
  PLONK.replace('QuotientDegreeFactor: 1', 'QuotientDegreeFactor: 16') + r'''
func TestZZDemo(t *testing.T) {
	q := make([]gl.QuadraticExtensionVariable, 16)
	for i := range q {
		q[i] = qe(0, 0)
	}
	if err := demoRun(nil, func(api frontend.API) { check(api, 1, q) }); err != nil {
		t.Fatal(err)
	}
	q[15] = qe(3, 4)
	if err := demoRun(nil, func(api frontend.API) { check(api, 1, q) }); err == nil {
		t.Fatal("a wrong last chunk was accepted")
	}
}
''')
# ---------------------------------------------------------------- C14
MINI = imp(GL, RI % 'types', RI % 'variables') + r'''
type mini struct {
	pow, powBits uint64
	rounds       int
	final        gl.QuadraticExtensionVariable
	open         gl.QuadraticExtensionVariable
	leaf         uint64
	index        uint64
	cap          func(i int) uint64
}

func q2(a, b uint64) gl.QuadraticExtensionVariable { return gl.NewQuadraticExtensionVariable(gl.NewVariable(a), gl.NewVariable(b)) }

// one constant polynomial of degree bound 2, opened at one point: a tree of depth 0, no folding
func (m mini) verify(api frontend.API) {
	p := &types.FriParams{DegreeBits: 1, Config: types.FriConfig{RateBits: 3, CapHeight: 4, NumQueryRounds: uint64(m.rounds), ProofOfWorkBits: m.powBits}}
	cap := variables.NewFriMerkleCap(4)
	for i := range cap {
		cap[i] = m.leaf
		if m.cap != nil {
			cap[i] = m.cap(i)
		}
	}
	proof := &variables.FriProof{FinalPoly: variables.PolynomialCoeffs{Coeffs: []gl.QuadraticExtensionVariable{m.final, q2(0, 0)}}, PowWitness: gl.Zero()}
	ch := &variables.FriChallenges{FriAlpha: q2(11, 12), FriPowResponse: gl.NewVariable(m.pow)}
	for i := 0; i < m.rounds; i++ {
		proof.QueryRoundProofs = append(proof.QueryRoundProofs, variables.FriQueryRound{InitialTreesProof: variables.FriInitialTreeProof{
			EvalsProofs: []variables.FriEvalProof{{Elements: []gl.Variable{gl.NewVariable(m.leaf)}}}}})
		ch.FriQueryIndices = append(ch.FriQueryIndices, gl.NewVariable(m.index))
	}
	inst := InstanceInfo{Oracles: []OracleInfo{{NumPolys: 1}}, Batches: []BatchInfo{{Point: q2(100, 200), Polynomials: []PolynomialInfo{{0, 0}}}}}
	NewChip(api, &types.CommonCircuitData{}, p).VerifyFriProof(inst, Openings{Batches: []OpeningBatch{{Values: []gl.QuadraticExtensionVariable{m.open}}}}, ch, []variables.FriMerkleCap{cap}, proof)
}
'''
B('c14-final-limb', 'C14', 'a final polynomial that is wrong in the second limb of a coefficient only',
  'the final polynomial is compared with the folded value in the first limb only', 'fri',
  [(FRI, '	f.gl.AssertIsEqual(oldEval[1], finalPolyEval[1])\n', '')],
  MINI + r'''
func TestZZDemo(t *testing.T) {
	m := mini{pow: 1, powBits: 16, rounds: 1, final: q2(0, 0), open: q2(9, 0), leaf: 9, index: 5}
	if err := demoRun(nil, m.verify); err != nil {
		t.Fatal(err)
	}
	m.final = q2(0, 3)
	if err := demoRun(nil, m.verify); err == nil {
		t.Fatal("a wrong final polynomial was accepted")
	}
}
''')
B('c14-pow-bytes', 'C14', 'a number of proof-of-work bits that is not a multiple of sixteen',
  'the proof-of-work bound is rounded to the limbs of the range check: fewer leading zeros are enforced than configured', 'fri',
  [(FRI, '	f.gl.RangeCheckWithMaxBits(powWitness, 64-friConfig.ProofOfWorkBits)\n', '	f.gl.RangeCheckWithMaxBits(powWitness, (64-friConfig.ProofOfWorkBits+15)/16*16)\n')],
  MINI + r'''
func TestZZDemo(t *testing.T) {
	m := mini{pow: 1<<44 - 1, powBits: 20, rounds: 1, final: q2(0, 0), open: q2(9, 0), leaf: 9, index: 5}
	if err := demoRun(nil, m.verify); err != nil {
		t.Fatal(err)
	}
	m.pow = 1 << 44
	if err := demoRun(nil, m.verify); err == nil {
		t.Fatal("19 leading zeros pass for 20")
	}
}
''')
B('c14-few-queries', 'C14', 'more than 28 query rounds',
  'query rounds beyond the recursion default are not checked', 'fri',
  [(FRI, '	for idx, xIndex := range friChallenges.FriQueryIndices {\n', '	for idx, xIndex := range friChallenges.FriQueryIndices {\n		if idx > 27 {\n			break\n		}\n')],
  MINI + r'''
func TestZZDemo(t *testing.T) {
	m := mini{pow: 1, powBits: 16, rounds: 29, final: q2(0, 0), open: q2(9, 0), leaf: 9, index: 5}
	if err := demoRun(nil, m.verify); err != nil {
		t.Fatal(err)
	}
	n := 0
	m.leaf = 8
	m.cap = func(int) uint64 { n++; return 8 }
	m.final = q2(1, 0)
	if err := demoRun(nil, m.verify); err == nil {
		t.Fatal("an inconsistent opening was accepted")
	}
	if err := demoRun(nil, func(api frontend.API) {
		p := &types.FriParams{DegreeBits: 1, Config: types.FriConfig{RateBits: 3, CapHeight: 4, NumQueryRounds: 29}}
		cap := variables.NewFriMerkleCap(4)
		for i := range cap {
			cap[i] = 9
		}
		proof := &variables.FriProof{FinalPoly: variables.PolynomialCoeffs{Coeffs: []gl.QuadraticExtensionVariable{q2(0, 0), q2(0, 0)}}}
		ch := &variables.FriChallenges{FriAlpha: q2(11, 12), FriPowResponse: gl.Zero()}
		for i := 0; i < 29; i++ {
			v := uint64(9)
			if i == 28 {
				v = 10
			}
			proof.QueryRoundProofs = append(proof.QueryRoundProofs, variables.FriQueryRound{InitialTreesProof: variables.FriInitialTreeProof{
				EvalsProofs: []variables.FriEvalProof{{Elements: []gl.Variable{gl.NewVariable(v)}}}}})
			ch.FriQueryIndices = append(ch.FriQueryIndices, gl.NewVariable(5))
		}
		inst := InstanceInfo{Oracles: []OracleInfo{{NumPolys: 1}}, Batches: []BatchInfo{{Point: q2(100, 200), Polynomials: []PolynomialInfo{{0, 0}}}}}
		NewChip(api, &types.CommonCircuitData{}, p).VerifyFriProof(inst, Openings{Batches: []OpeningBatch{{Values: []gl.QuadraticExtensionVariable{q2(9, 0)}}}}, ch, []variables.FriMerkleCap{cap}, proof)
	}); err == nil {
		t.Fatal("round 29 is not checked")
	}
}
''')
# ---------------------------------------------------------------- C15
COMMON = 'import (\n"os"\n"path/filepath"\n"strings"\n"testing"\n)\n' + r'''
func edited(t *testing.T, from, to string) (o CommonCircuitData, refused bool) {
	b, err := os.ReadFile("../testdata/step/common_circuit_data.json")
	if err != nil {
		t.Fatal(err)
	}
	s := strings.Join(strings.Fields(string(b)), "")
	i := strings.LastIndex(s, from)
	if i < 0 {
		t.Fatal("no such field")
	}
	s = s[:i] + to + s[i+len(from):]
	f := filepath.Join(t.TempDir(), "c.json")
	os.WriteFile(f, []byte(s), 0o600)
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return ReadCommonCircuitData(f), false
}
'''
CD = 'types/common_data.go'
B('c15-query-rounds', 'C15', 'a description whose fri_params.config differs from config.fri_config in the number of query rounds',
  'the number of query rounds of fri_params is taken from config.fri_config', 'types',
  [(CD, 'commonCircuitData.FriParams.Config.NumQueryRounds = raw.FriParams.Config.NumQueryRounds', 'commonCircuitData.FriParams.Config.NumQueryRounds = raw.Config.FriConfig.NumQueryRounds')],
  COMMON + r'''
func TestZZDemo(t *testing.T) {
	c, _ := edited(t, `"num_query_rounds":28`, `"num_query_rounds":29`)
	if c.FriParams.Config.NumQueryRounds != 29 || c.Config.FriConfig.NumQueryRounds != 28 {
		t.Fatal(c.FriParams, c.Config)
	}
}
''', prelude=False)
B('c15-hiding', 'C15', 'a description with hiding enabled but zero_knowledge false',
  'hiding is refused only when zero_knowledge is set too', 'types',
  [(CD, '	if raw.FriParams.Hiding {\n', '	if raw.FriParams.Hiding && raw.Config.ZeroKnowledge {\n')],
  COMMON + r'''
func TestZZDemo(t *testing.T) {
	if _, refused := edited(t, `"hiding":false`, `"hiding":true`); !refused {
		t.Fatal("hiding is accepted")
	}
}
''', prelude=False)
B('c15-ragged-rounds', 'C15', 'a file whose query rounds have different numbers of folding steps',
  'the number of steps of every round is taken from the first', 'variables',
  [('variables/deserialize.go', '		numSteps := len(openingProofRaw.QueryRoundProofs[i].Steps)\n', '		numSteps := len(openingProofRaw.QueryRoundProofs[0].Steps)\n')],
  'import (\n"encoding/json"\n"testing"\n' + RI % 'types' + '\n)\n' + r'''
func TestZZDemo(t *testing.T) {
	var raw types.ProofWithPublicInputsRaw
	step := `{"evals":[[1,2]],"merkle_proof":{"siblings":["3"]}}`
	round := func(s string) string { return `{"initial_trees_proof":{"evals_proofs":[]},"steps":[` + s + `]}` }
	err := json.Unmarshal([]byte(`{"proof":{"opening_proof":{"query_round_proofs":[`+round(step)+`,`+round(step+","+step)+`]}}}`), &raw)
	if err != nil {
		t.Fatal(err)
	}
	p := DeserializeProofWithPublicInputs(raw)
	if n := len(p.Proof.OpeningProof.QueryRoundProofs[1].Steps); n != 2 {
		t.Fatal(n)
	}
}
''', prelude=False)
# ---------------------------------------------------------------- C16
SHAPE = imp(GL, RI % 'types', RI % 'variables') + r'''
func refusedShape(f func(p *types.FriParams, proof *variables.FriProof)) (r bool) {
	p := &types.FriParams{DegreeBits: 9, Config: types.FriConfig{RateBits: 3, CapHeight: 4, NumQueryRounds: 1}, ReductionArityBits: []uint64{4}}
	proof := &variables.FriProof{FinalPoly: variables.NewPolynomialCoeffs(32), CommitPhaseMerkleCaps: []variables.FriMerkleCap{variables.NewFriMerkleCap(4)},
		QueryRoundProofs: []variables.FriQueryRound{{
			InitialTreesProof: variables.FriInitialTreeProof{EvalsProofs: []variables.FriEvalProof{{Elements: make([]gl.Variable, 1), MerkleProof: variables.NewFriMerkleProof(8)}}},
			Steps:             []variables.FriQueryStep{variables.NewFriQueryStep(4, 4)}}}}
	f(p, proof)
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	validateFriProofShape(proof, InstanceInfo{Oracles: []OracleInfo{{NumPolys: 1}}}, p)
	return
}
'''
B('c16-long-final-poly', 'C16', 'a final polynomial with more coefficients than the description fixes',
  'a longer final polynomial is accepted: the degree bound is gone', 'fri',
  [(FU, 'if len(finalPoly.Coeffs) != params.FinalPolyLen() {', 'if len(finalPoly.Coeffs) < params.FinalPolyLen() {')],
  SHAPE + r'''
func TestZZDemo(t *testing.T) {
	if refusedShape(func(p *types.FriParams, proof *variables.FriProof) {}) {
		t.Fatal("a well-formed proof is refused")
	}
	if !refusedShape(func(p *types.FriParams, proof *variables.FriProof) { proof.FinalPoly = variables.NewPolynomialCoeffs(33) }) {
		t.Fatal("33 coefficients were accepted")
	}
}
''')
B('c16-short-step-path', 'C16', 'folding layers whose Merkle paths are shorter than the description fixes',
  'a folding layer may be committed in a smaller tree', 'fri',
  [(FU, 'if len(merkleProof.Siblings)+int(capHeight) != codewordLenBits {', 'if len(merkleProof.Siblings)+int(capHeight) > codewordLenBits {')],
  SHAPE + r'''
func TestZZDemo(t *testing.T) {
	if refusedShape(func(p *types.FriParams, proof *variables.FriProof) {}) {
		t.Fatal("a well-formed proof is refused")
	}
	if !refusedShape(func(p *types.FriParams, proof *variables.FriProof) {
		proof.QueryRoundProofs[0].Steps[0].MerkleProof = variables.NewFriMerkleProof(3)
	}) {
		t.Fatal("a short path was accepted")
	}
}
''')
# ---------------------------------------------------------------- C17
B('c17-evals-permuted', 'C17', 'using the same proof object twice',
  'the folding evaluations of the proof are reordered in place while it is verified', 'fri',
  [(FRI, '''	permutedEvals := make([]gl.QuadraticExtensionVariable, len(evals))
	for i := uint8(0); i <= uint8(len(evals)-1); i++ {
		newIndex := bits.Reverse8(i) >> (8 - arityBits)
		permutedEvals[newIndex] = evals[i]
	}
''', '''	for i := uint8(0); i <= uint8(len(evals)-1); i++ {
		newIndex := bits.Reverse8(i) >> (8 - arityBits)
		if i < newIndex {
			evals[i], evals[newIndex] = evals[newIndex], evals[i]
		}
	}
'''), (FRI, '	yPoints := permutedEvals\n', '	yPoints := evals\n'),
   (FRI, '''		oldEval = f.computeEvaluation(
			subgroupX,
			xIndexWithinCosetBits,
			arityBits,
			evals,
			challenges.FriBetas[i],
		)

		// Convert evals (array of QE) to fields by taking their 0th degree coefficients
		fieldEvals := make([]gl.Variable, 0, 2*len(evals))
		for j := 0; j < len(evals); j++ {
			fieldEvals = append(fieldEvals, evals[j][0])
			fieldEvals = append(fieldEvals, evals[j][1])
		}
''', '''		// Convert evals (array of QE) to fields by taking their 0th degree coefficients
		fieldEvals := make([]gl.Variable, 0, 2*len(evals))
		for j := 0; j < len(evals); j++ {
			fieldEvals = append(fieldEvals, evals[j][0])
			fieldEvals = append(fieldEvals, evals[j][1])
		}

		oldEval = f.computeEvaluation(
			subgroupX,
			xIndexWithinCosetBits,
			arityBits,
			evals,
			challenges.FriBetas[i],
		)

''')],
  imp(RI % 'types', RI % 'variables') + STEP + r'''
func TestZZDemo(t *testing.T) {
	cd, p, v := stepData()
	for i := 0; i < 2; i++ {
		if err := demoRun(nil, func(api frontend.API) {
			c := NewVerifierChip(api, cd)
			h := c.GetPublicInputsHash(p.PublicInputs)
			ch := c.GetChallenges(p.Proof, h, v)
			c.friChip.VerifyFriProof(c.friChip.GetInstance(ch.PlonkZeta), c.friChip.ToOpenings(p.Proof.Openings), &ch.FriChallenges,
				[]variables.FriMerkleCap{v.ConstantSigmasCap, p.Proof.WiresCap, p.Proof.PlonkZsPartialProductsCap, p.Proof.QuotientPolysCap}, &p.Proof.OpeningProof)
		}); err != nil {
			t.Fatal(i, err)
		}
	}
}
''', pkgname='verifier')
DEFS[-1]['pkg'] = 'verifier'
B('c17-no-lock', 'C17', 'two circuits built at the same time',
  'the table of chips is read without the lock', 'goldilocks',
  [(GLB, '''	mutex.Lock()
	defer mutex.Unlock()

	if chip, ok := poseidonChips[api]; ok {
		return chip
	}
''', '''	if chip, ok := poseidonChips[api]; ok {
		return chip
	}

	mutex.Lock()
	defer mutex.Unlock()
''')],
  r'''
import (
	"sync"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

type addCircuit struct{ X, Y frontend.Variable }

func (c *addCircuit) Define(api frontend.API) error {
	for i := 0; i < 200; i++ {
		New(api)
	}
	api.AssertIsEqual(c.X, c.Y)
	return nil
}

func TestZZDemo(t *testing.T) {
	t.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	for r := 0; r < 20; r++ {
		var w sync.WaitGroup
		for i := 0; i < 8; i++ {
			w.Add(1)
			go func() {
				defer w.Done()
				if _, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &addCircuit{}); err != nil {
					t.Error(err)
				}
			}()
		}
		w.Wait()
	}
}
''', prelude=False, flags='-race ')
B('c17-shared-power', 'C17', 'two verifier circuits built at the same time',
  'powers of the base are computed in a variable shared by all chips', 'fri',
  [(FRI, 'func (f *Chip) expFromBitsConstBase(\n', '// scratch space for the powers of constant bases\nvar basePow goldilocks.Element\n\nfunc (f *Chip) expFromBitsConstBase(\n'),
   (FRI, '		basePow := goldilocks.NewElement(0)\n', '')],
  r'''
import (
	"bytes"
	"sync"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
)

type expCircuit struct {
	B    [8]frontend.Variable
	Y    frontend.Variable
	base uint64
}

func (c *expCircuit) Define(api frontend.API) error {
	f := NewChip(api, &types.CommonCircuitData{}, &types.FriParams{})
	for i := 0; i < 4; i++ {
		api.AssertIsEqual(f.expFromBitsConstBase(goldilocks.NewElement(c.base), c.B[:]).Limb, c.Y)
	}
	return nil
}

func compile(t *testing.T, b uint64) []byte {
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &expCircuit{base: b})
	if err != nil {
		t.Error(err)
		return nil
	}
	var w bytes.Buffer
	cs.WriteTo(&w)
	return w.Bytes()
}

func TestZZDemo(t *testing.T) {
	t.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	var want [8][]byte
	for i := range want {
		want[i] = compile(t, uint64(3+i))
	}
	for r := 0; r < 3; r++ {
		var w sync.WaitGroup
		for i := range want {
			i := i
			w.Add(1)
			go func() {
				defer w.Done()
				if !bytes.Equal(compile(t, uint64(3+i)), want[i]) {
					t.Error("another constraint system")
				}
			}()
		}
		w.Wait()
	}
}
''', prelude=False, flags='-race ')
# ---------------------------------------------------------------- C18
NC = imp(RI % 'types', RI % 'variables', GL) + STEP + r'''
// only the range checks: everything behind them is replaced by a prover who does not mind
func rangeChecked(p variables.Proof, cd types.CommonCircuitData) error {
	return demoRun(map[string]solver.Hint{"MulAddHint": demoMulAdd, "SplitLimbsHint": demoSplit}, func(api frontend.API) {
		NewVerifierChip(api, cd).rangeCheckProof(p)
	})
}
func plusP(v gl.Variable) gl.Variable {
	x := new(big.Int)
	switch w := v.Limb.(type) {
	case uint64:
		x.SetUint64(w)
	case *big.Int:
		x.Set(w)
	case big.Int:
		x.Set(&w)
	default:
		panic("unexpected type")
	}
	return gl.NewVariable(x.Add(x, demoP))
}
'''
def nc(lvalue): return NC + r'''
func TestZZDemo(t *testing.T) {
	cd, p, _ := stepData()
	if err := rangeChecked(p.Proof, cd); err != nil {
		t.Fatal(err)
	}
	LV = plusP(LV)
	if err := rangeChecked(p.Proof, cd); err == nil {
		t.Fatal("a non-canonical element was accepted")
	}
}
'''.replace('LV', 'p.Proof.' + lvalue)
B('c18-zs-next', 'C18', 'a non-canonical value among the openings at the next point',
  'the openings of Z at g*zeta are not range checked (those at zeta are, twice)', 'verifier',
  [(VF, '	for _, plonkZNext := range proof.Openings.PlonkZsNext {\n', '	for _, plonkZNext := range proof.Openings.PlonkZs {\n')],
  nc('Openings.PlonkZsNext[1][0]'))
B('c18-second-limb', 'C18', 'a non-canonical second limb of an extension element',
  'RangeCheckQE checks the first limb twice', 'verifier',
  [(QE, '	p.RangeCheck(a[1])\n', '	p.RangeCheck(a[0])\n')],
  nc('OpeningProof.QueryRoundProofs[3].Steps[1].Evals[2][1]'))
B('c18-late-steps', 'C18', 'a non-canonical evaluation in the second or a later folding layer',
  'only the first folding layer of each round is range checked', 'verifier',
  [(VF, '		for _, queryStep := range queryRound.Steps {\n', '		for _, queryStep := range queryRound.Steps[:1] {\n')],
  nc('OpeningProof.QueryRoundProofs[3].Steps[1].Evals[2][0]'))
# ---------------------------------------------------------------- C19
TR = imp(RI % 'types', RI % 'variables', GL, RI % 'poseidon', '"reflect"') + STEP + r'''
func values(api frontend.API, c variables.ProofChallenges) (o []string) {
	put := func(l ...gl.Variable) {
		for _, v := range l {
			o = append(o, demoVal(api, v.Limb).String())
		}
	}
	put(c.PlonkBetas...)
	put(c.PlonkGammas...)
	put(c.PlonkAlphas...)
	put(c.PlonkZeta[:]...)
	put(c.FriChallenges.FriAlpha[:]...)
	put(c.FriChallenges.FriPowResponse)
	put(c.FriChallenges.FriQueryIndices...)
	return
}
'''
B('c19-third-layer', 'C19', 'three or more folding layers',
  'the caps of the third and later folding layers are not observed: their challenges do not bind them', 'verifier',
  [(CH, '		c.ObserveCap(commitPhaseMerkleCaps[i])\n', '		if i < 2 {\n			c.ObserveCap(commitPhaseMerkleCaps[i])\n		}\n')],
  TR + r'''
func TestZZDemo(t *testing.T) {
	cd, p, v := stepData()
	z := gl.Zero()
	caps := p.Proof.OpeningProof.CommitPhaseMerkleCaps
	get := func(n int) (o []string) {
		c := append([]variables.FriMerkleCap{}, caps[0], caps[1], append(variables.FriMerkleCap{}, caps[0]...))
		c[2][0] = n
		p.Proof.OpeningProof.CommitPhaseMerkleCaps = c
		if err := demoRun(nil, func(api frontend.API) {
			o = values(api, NewVerifierChip(api, cd).GetChallenges(p.Proof, poseidon.GoldilocksHashOut{z, z, z, z}, v))
		}); err != nil {
			t.Fatal(err)
		}
		return
	}
	if reflect.DeepEqual(get(1), get(2)) {
		t.Fatal("the challenges do not depend on the third cap")
	}
}
''')
B('c19-short-final-poly', 'C19', 'a circuit whose final polynomial has a single coefficient',
  'a final polynomial of a single coefficient is not observed', 'verifier',
  [(CH, '	c.ObserveExtensionElements(finalPoly.Coeffs)\n', '	if len(finalPoly.Coeffs) > 1 {\n		c.ObserveExtensionElements(finalPoly.Coeffs)\n	}\n')],
  TR + r'''
func TestZZDemo(t *testing.T) {
	cd, p, v := stepData()
	z := gl.Zero()
	get := func(n uint64) (o []string) {
		p.Proof.OpeningProof.FinalPoly = variables.PolynomialCoeffs{Coeffs: []gl.QuadraticExtensionVariable{gl.NewVariable(n).ToQuadraticExtension()}}
		if err := demoRun(nil, func(api frontend.API) {
			o = values(api, NewVerifierChip(api, cd).GetChallenges(p.Proof, poseidon.GoldilocksHashOut{z, z, z, z}, v))
		}); err != nil {
			t.Fatal(err)
		}
		return
	}
	if reflect.DeepEqual(get(1), get(2)) {
		t.Fatal("the challenges do not depend on the final polynomial")
	}
}
''')
# ---------------------------------------------------------------- C21
B('c21-zero-depth', 'C21', 'trees no deeper than the cap', 'leaves of a tree without siblings are not compared with the cap', 'fri',
  [(FRI, '	currentDigest := f.poseidonBN254Chip.HashOrNoop(leafData)\n', '	if len(proof.Siblings) == 0 {\n		return\n	}\n\n	currentDigest := f.poseidonBN254Chip.HashOrNoop(leafData)\n')],
  MINI + r'''
func TestZZDemo(t *testing.T) {
	m := mini{pow: 1, powBits: 16, rounds: 1, final: q2(0, 0), open: q2(9, 0), leaf: 9, index: 5}
	if err := demoRun(nil, m.verify); err != nil {
		t.Fatal(err)
	}
	m.cap = func(int) uint64 { return 8 }
	if err := demoRun(nil, m.verify); err == nil {
		t.Fatal("a leaf that is not in the cap was accepted")
	}
}
''')
B('c21-last-layer', 'C21', 'a prover who lies about the last folding layer',
  'the Merkle path of the last folding layer is not checked', 'verifier',
  [(FRI, '''		f.verifyMerkleProofToCapWithCapIndex(
			fieldEvals,
			cosetIndexBits,
			capIndexBits,
			proof.CommitPhaseMerkleCaps[i],
			&roundProof.Steps[i].MerkleProof,
		)
''', '''		if i+1 < len(f.friParams.ReductionArityBits) {
			f.verifyMerkleProofToCapWithCapIndex(
				fieldEvals,
				cosetIndexBits,
				capIndexBits,
				proof.CommitPhaseMerkleCaps[i],
				&roundProof.Steps[i].MerkleProof,
			)
		}
''')],
  imp(RI % 'types', RI % 'variables') + STEP + r'''
func TestZZDemo(t *testing.T) {
	cd, p, v := stepData()
	run := func() error {
		return demoRun(nil, func(api frontend.API) {
			c := NewVerifierChip(api, cd)
			h := c.GetPublicInputsHash(p.PublicInputs)
			ch := c.GetChallenges(p.Proof, h, v)
			c.friChip.VerifyFriProof(c.friChip.GetInstance(ch.PlonkZeta), c.friChip.ToOpenings(p.Proof.Openings), &ch.FriChallenges,
				[]variables.FriMerkleCap{v.ConstantSigmasCap, p.Proof.WiresCap, p.Proof.PlonkZsPartialProductsCap, p.Proof.QuotientPolysCap}, &p.Proof.OpeningProof)
		})
	}
	if err := run(); err != nil {
		t.Fatal(err)
	}
	s := p.Proof.OpeningProof.QueryRoundProofs[0].Steps
	s[len(s)-1].MerkleProof.Siblings[0] = 12345
	if err := run(); err == nil {
		t.Fatal("a wrong sibling was accepted")
	}
}
''')
# ---------------------------------------------------------------- C22
B('c22-muladd-aliases', 'C22', 'an R1CS circuit in which the product has a constant factor and the same wire as the third operand, which is used again',
  'MulAddNoReduce accumulates into its operand: the operand changes its meaning', 'goldilocks',
  [(GLB, '''	cLimbCopy := p.api.Mul(c.Limb, 1)
	return NewVariable(p.api.MulAcc(cLimbCopy, a.Limb, b.Limb))
''', '''	return NewVariable(p.api.MulAcc(c.Limb, a.Limb, b.Limb))
''')],
  r'''
import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

type accCircuit struct{ X, S, R frontend.Variable }

func (c *accCircuit) Define(api frontend.API) error {
	r := New(api).MulAddNoReduce(NewVariable(2), NewVariable(c.X), NewVariable(c.X))
	api.AssertIsEqual(r.Limb, c.R)
	api.AssertIsEqual(c.X, c.S)
	return nil
}

func TestZZDemo(t *testing.T) {
	t.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &accCircuit{})
	if err != nil {
		t.Fatal(err)
	}
	w, err := frontend.NewWitness(&accCircuit{X: 2, S: 2, R: 6}, ecc.BN254.ScalarField())
	if err != nil {
		t.Fatal(err)
	}
	if _, err := cs.Solve(w); err != nil {
		t.Fatal(err)
	}
}
''', prelude=False)
# ---------------------------------------------------------------- C20
CER = r'''
import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"golang.org/x/crypto/blake2b"
)

var _ kzg_bn254.SRS

func TestMain(m *testing.M) {
	if dir := os.Getenv("DEMO_CHILD"); dir != "" {
		os.Chdir(dir)
		log.SetOutput(io.Discard)
		http.DefaultTransport = served{}
		http.DefaultClient.Transport = served{}
		DownloadAndSaveAztecIgnitionSrs(0, "out.srs")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

type served struct{}

func (served) RoundTrip(r *http.Request) (*http.Response, error) {
	p, _ := url.PathUnescape(r.URL.Path)
	i := strings.Index(p, "MAIN IGNITION/")
	if i < 0 {
		return nil, errors.New("no such server")
	}
	b, err := os.ReadFile(filepath.Join("srv", filepath.Clean("/"+p[i+len("MAIN IGNITION/"):])))
	code := 200
	if err != nil {
		code = 404
	}
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Body: io.NopCloser(bytes.NewReader(b)), Request: r}, nil
}

func words(b []byte, x *big.Int) []byte {
	m := new(big.Int).SetUint64(1<<64 - 1)
	for i := 0; i < 4; i++ {
		b = binary.BigEndian.AppendUint64(b, new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m).Uint64())
	}
	return b
}

const points = 128

func contribute(prev, z uint64) (tau fr.Element, b []byte, g1 []bn254.G1Affine) {
	var a, c fr.Element
	a.SetUint64(prev)
	c.SetUint64(z)
	tau.Mul(&a, &c)
	_, _, gen, gen2 := bn254.Generators()
	for _, v := range []int{0, 1, points, 1, points, 2, 0} {
		b = binary.BigEndian.AppendUint32(b, uint32(v))
	}
	x := tau
	for i := 0; i < points; i++ {
		var p bn254.G1Affine
		p.ScalarMultiplication(&gen, x.BigInt(new(big.Int)))
		g1 = append(g1, p)
		b = words(words(b, p.X.BigInt(new(big.Int))), p.Y.BigInt(new(big.Int)))
		x.Mul(&x, &tau)
	}
	for _, s := range []*fr.Element{&tau, &c} {
		var p bn254.G2Affine
		p.ScalarMultiplication(&gen2, s.BigInt(new(big.Int)))
		b = words(words(b, p.X.A0.BigInt(new(big.Int))), p.X.A1.BigInt(new(big.Int)))
		b = words(words(b, p.Y.A0.BigInt(new(big.Int))), p.Y.A1.BigInt(new(big.Int)))
	}
	s := blake2b.Sum512(b)
	return tau, append(b, s[:]...), g1
}

// run a ceremony: contribution i has the secret base[i]*z[i]; the file that was saved, if any
func ceremony(t *testing.T, base, z []uint64) (ok bool, saved []byte, g1 [][]bn254.G1Affine) {
	dir := t.TempDir()
	type part struct {
		Address     string `json:"address"`
		Position    int    `json:"position"`
		StartedAt   string `json:"startedAt"`
		CompletedAt string `json:"completedAt"`
	}
	var parts []part
	os.MkdirAll(filepath.Join(dir, "srv"), 0o755)
	for i := range base {
		a := fmt.Sprintf("0x%040d", i)
		parts = append(parts, part{a, i, "2020-01-01T00:00:00Z", "2020-01-01T00:00:00Z"})
		_, b, g := contribute(base[i], z[i])
		g1 = append(g1, g)
		d := filepath.Join(dir, "srv", fmt.Sprintf("%03d_%s", i, strings.ToLower(a)))
		os.MkdirAll(d, 0o755)
		os.WriteFile(filepath.Join(d, "transcript00.dat"), b, 0o644)
	}
	m, _ := json.Marshal(map[string]any{"name": "x", "numG1Points": points, "numG2Points": 1, "pointsPerTranscript": points, "network": "x", "participants": parts})
	os.WriteFile(filepath.Join(dir, "srv", "manifest.json"), m, 0o644)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+dir)
	ok = cmd.Run() == nil
	saved, _ = os.ReadFile(filepath.Join(dir, "out.srs"))
	return
}

func TestZZDemo(t *testing.T) {
	ok, saved, g1 := ceremony(t, []uint64{1, 3, 15, 105}, []uint64{3, 5, 7, 11})
	if !ok {
		t.Fatal("an honest ceremony fails")
	}
	var srs kzg_bn254.SRS
	if _, err := srs.ReadFrom(bytes.NewReader(saved)); err != nil {
		t.Fatal(err)
	}
	for i, p := range g1[3] {
		if !p.Equal(&srs.Pk.G1[i]) {
			t.Fatal("another contribution was saved")
		}
	}
	for i := 1; i < 4; i++ {
		base, z := []uint64{1, 3, 15, 105}, []uint64{3, 5, 7, 11}
		for j := i; j < 4; j++ {
			base[j] *= 13 // does not build on the one before
		}
		if ok, saved, _ := ceremony(t, base, z); ok || saved != nil {
			t.Fatal("a fork at ", i, " was accepted")
		}
	}
}
'''
TS = 'trusted_setup/trusted_setup.go'
B('c20-first-link', 'C20', 'a second contribution that does not follow the first',
  'the first link of the chain is never checked', 'trusted_setup',
  [(TS, '''	if !next.Follows(&current) {
		log.Fatalf("contribution %d does not follow contribution %d", startIdx+1, startIdx)
	}
''', '''	if startIdx > 0 && !next.Follows(&current) {
		log.Fatalf("contribution %d does not follow contribution %d", startIdx+1, startIdx)
	}
''')], CER, prelude=False)
B('c20-last-contribution', 'C20', 'a ceremony of at least three contributions',
  'the last contribution is left out: the one before it is saved', 'trusted_setup',
  [(TS, 'for i := startIdx + 2; i < len(manifest.Participants); i++ {', 'for i := startIdx + 2; i < len(manifest.Participants)-1; i++ {')], CER, prelude=False)
B('c20-vacuous-follows', 'C20', 'a contribution from the third on that does not follow the one before it',
  'contributions are compared with themselves: any well-formed contribution follows', 'trusted_setup',
  [(TS, '''		current, next = next, current
		if err := next.Get(manifest.Participants[i], config); err != nil {
			log.Fatal("when fetching contribution ", i+1, ": ", err)
		}
		if !next.Follows(&current) {
''', '''		if err := next.Get(manifest.Participants[i], config); err != nil {
			log.Fatal("when fetching contribution ", i+1, ": ", err)
		}
		if i%2 == 0 && !next.Follows(&current) {
''')], CER, prelude=False) if False else None
DEFS = [d for d in DEFS if d]
