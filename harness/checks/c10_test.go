package checks

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// drawGate draws a gate with legal parameters; small keeps it cheap.
func drawGate(t *T, small bool) ref.Gate {
	lim := func(n int) int {
		if small && n > 4 {
			return 4
		}
		return n
	}
	p := func(lo, hi int, l string) int {
		hi = lim(hi)
		switch rapid.IntRange(0, 5).Draw(t, l+"k") {
		case 0:
			return lo
		case 1:
			return hi
		}
		return uni(t, lo, hi, l)
	}
	kinds := []string{"arith", "arithExt", "baseSum", "const", "coset", "exp", "mulExt", "noop", "poseidon", "mds", "pi", "ra", "ra", "red", "redExt", "coset"}
	if small {
		kinds = []string{"arith", "arithExt", "baseSum", "const", "exp", "mulExt", "noop", "pi", "ra", "red", "redExt", "coset"}
	}
	switch pick(t, kinds, "gate") {
	case "arith":
		return ref.Arithmetic{NumOps: p(1, 24, "ops")}
	case "arithExt":
		return ref.ArithmeticExtension{NumOps: p(1, 12, "ops")}
	case "baseSum":
		return ref.BaseSum{NumLimbs: p(1, 63, "limbs"), Base: p(2, 9, "base")}
	case "const":
		return ref.Constant{Num: p(1, 8, "num")}
	case "coset":
		b := uni(t, 1, 4, "bits")
		if small {
			b = uni(t, 1, 2, "bits")
		} else if rapid.IntRange(0, 15).Draw(t, "five") == 15 {
			b = 5
		}
		return ref.CosetInterpolation{Bits: b, Deg: uni(t, 2, 1<<b, "deg")}
	case "exp":
		return ref.Exponentiation{Bits: p(1, 67, "bits")}
	case "mulExt":
		return ref.MulExtension{NumOps: p(1, 14, "ops")}
	case "noop":
		return ref.Noop{}
	case "poseidon":
		return ref.PoseidonG{}
	case "mds":
		return ref.PoseidonMds{}
	case "pi":
		return ref.PublicInput{}
	case "ra":
		b := uni(t, 1, 5, "bits")
		if small {
			b = uni(t, 1, 2, "bits")
		}
		return ref.RandomAccess{Bits: b, Copies: uni(t, 1, 1+(40>>b), "copies"), Extra: uni(t, 0, 4, "extra")}
	case "red":
		return ref.Reducing{N: p(1, 44, "n")}
	default:
		return ref.ReducingExtension{N: p(1, 33, "n")}
	}
}

func toGl(x []uint64) []goldilocks.Element {
	o := make([]goldilocks.Element, len(x))
	for i := range x {
		o[i] = goldilocks.NewElement(x[i])
	}
	return o
}

// construct builds the repository's gate through its constructor.
func construct(g ref.Gate) gates.Gate {
	switch g := g.(type) {
	case ref.Arithmetic:
		return gates.NewArithmeticGate(uint64(g.NumOps))
	case ref.ArithmeticExtension:
		return gates.NewArithmeticExtensionGate(uint64(g.NumOps))
	case ref.BaseSum:
		return gates.NewBaseSumGate(uint64(g.NumLimbs), uint64(g.Base))
	case ref.Constant:
		return gates.NewConstantGate(uint64(g.Num))
	case ref.CosetInterpolation:
		return gates.NewCosetInterpolationGate(uint64(g.Bits), uint64(g.Deg), toGl(ref.BarycentricWeights(ref.Subgroup(g.Bits))))
	case ref.Exponentiation:
		return gates.NewExponentiationGate(uint64(g.Bits))
	case ref.MulExtension:
		return gates.NewMultiplicationExtensionGate(uint64(g.NumOps))
	case ref.Noop:
		return gates.NewNoopGate()
	case ref.PoseidonG:
		return gates.NewPoseidonGate()
	case ref.PoseidonMds:
		return gates.NewPoseidonMdsGate()
	case ref.PublicInput:
		return gates.NewPublicInputGate()
	case ref.RandomAccess:
		return gates.NewRandomAccessGate(uint64(g.Bits), uint64(g.Copies), uint64(g.Extra))
	case ref.Reducing:
		return gates.NewReducingGate(uint64(g.N))
	case ref.ReducingExtension:
		return gates.NewReducingExtensionGate(uint64(g.N))
	}
	panic("HARNESS: gate")
}

func gateName(g ref.Gate) string { return strings.TrimPrefix(fmt.Sprintf("%T", g), "ref.") }

func lift(x []uint64) []ref.E {
	o := make([]ref.E, len(x))
	for i := range x {
		o[i] = ref.EB(x[i])
	}
	return o
}

// row draws wires and constants for g: arbitrary, satisfying, or satisfying up to one cell.
func drawRow(t *T, g ref.Gate) (kind string, consts, wires []ref.E, pih [4]uint64) {
	r := ref.NewRng(seed(t))
	nw, nc := g.NumWires()+uni(t, 0, 3, "extraW"), g.NumConsts()+uni(t, 0, 2, "extraC")
	for i := range pih {
		pih[i] = r.F()
	}
	kind = pick(t, []string{"free", "free", "valid", "near", "base"}, "row")
	switch kind {
	case "free":
		return kind, r.Es(nc), r.Es(nw), pih
	case "base":
		return kind, lift(r.Fs(nc)), lift(r.Fs(nw)), pih
	}
	c, w := r.Fs(nc), r.Fs(nw)
	g.Fill(r, c, w, pih)
	consts, wires = lift(c), lift(w)
	if kind == "near" && g.NumWires() > 0 {
		i := intn(t, g.NumWires(), "cell")
		wires[i] = ref.EAdd(wires[i], ref.E{1 + r.U64()%(ref.P-1), uint64(r.N(2))})
	}
	return
}

// sameVars: the same variables, by identity.
func sameVars(a, b []gl.QuadraticExtensionVariable) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// evalGate evaluates a repository gate on the row and compares with the reference constraints.
func evalGate(t *T, m eng.Mode, how string, g ref.Gate, rg gates.Gate, consts, wires []ref.E, pih [4]uint64) (nonzero int) {
	want := g.Eval(consts, wires, pih)
	accept(t, m, "evaluation of "+g.ID(), func(api frontend.API) {
		cv, wv := conv.Engine.Es(consts), conv.Engine.Es(wires)
		cc, wc := append([]gl.QuadraticExtensionVariable(nil), cv...), append([]gl.QuadraticExtensionVariable(nil), wv...)
		got := rg.EvalUnfiltered(api, gl.New(api), *gates.NewEvaluationVars(cv, wv, conv.Engine.Hash(pih)))
		if len(got) != len(want) {
			t.Fatalf("%s %s: %d constraints, want %d", how, g.ID(), len(got), len(want))
		}
		for i := range got {
			x, ok := conv.RdE(got[i])
			// constraint values may be congruent representatives; the verifier reduces them
			if !ok {
				x = ref.E{conv.ModP(got[i][0]), conv.ModP(got[i][1])}
			}
			if x != want[i] {
				t.Fatalf("%s %s: constraint %d = %v want %v\nconsts %v\nwires %v", how, g.ID(), i, x, want[i], consts, wires)
			}
		}
		if !sameVars(cc, cv) || !sameVars(wc, wv) {
			t.Fatalf("%s %s: evaluation changed the wires or constants passed in", how, g.ID())
		}
	})
	for _, w := range want {
		if !ref.EIsZero(w) {
			nonzero++
		}
	}
	return
}

func TestC10_eval(t *testing.T) {
	Section(t, "one of the 14 gates with drawn parameters, built by constructor or from its identifier, on free, base-field, satisfying and almost satisfying rows; every constraint value compared with the reference; non-trivial: some constraint non-zero, or a satisfying row", 20000, 400000, bodyC10eval)
}

func bodyC10eval(t *T, h *H) {
	g := drawGate(t, rapid.Bool().Draw(t, "small"))
	kind, consts, wires, pih := drawRow(t, g)
	var rg gates.Gate
	how := pick(t, []string{"constructor", "id"}, "how")
	if p := try(func() {
		if how == "id" {
			rg = gates.GateInstanceFromId(g.ID())
		} else {
			rg = construct(g)
		}
	}); p != nil {
		t.Fatalf("%s of %s failed: %v", how, g.ID(), p)
	}
	m := pick(t, []eng.Mode{eng.Native, eng.Native, eng.Native, eng.Native, eng.Native, eng.Native, eng.Native, eng.Plain}, "mode")
	nz := evalGate(t, m, how, g, rg, consts, wires, pih)
	if kind == "valid" && nz > 0 {
		panic("HARNESS: reference row does not satisfy " + g.ID())
	}
	h.Case(nz > 0 || kind == "valid", gateName(g)+"/"+kind, g.ID(), wires)
}

// ------------------------------------------------------------------ identifiers

// printed writes the id the way Plonky2 prints it: Debug of a field element may show w+p when that
// still fits 64 bits.
func printed(t *T, g ref.Gate) string {
	c, ok := g.(ref.CosetInterpolation)
	if !ok || !rapid.Bool().Draw(t, "unreducedWeights") {
		return g.ID()
	}
	ws := ref.BarycentricWeights(ref.Subgroup(c.Bits))
	var s []string
	for _, w := range ws {
		if w < 1<<32-1 && rapid.Bool().Draw(t, "plusP") {
			w += ref.P
		}
		s = append(s, fmt.Sprint(w))
	}
	return fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", c.Bits, c.Deg, strings.Join(s, ", "))
}

func TestC11_parse(t *testing.T) {
	Section(t, "identifiers of all 14 gates with drawn parameters (also large ones), parsed repeatedly; the parsed gate is compared by its identity with the constructed one and by evaluation; non-trivial: parameters other than those of the test data", 16000, 300000, bodyC11parse)
}

func bodyC11parse(t *T, h *H) {
	g := drawGate(t, rapid.IntRange(0, 3).Draw(t, "small") != 0)
	id := printed(t, g)
	big := rapid.IntRange(0, 3).Draw(t, "big") == 3
	if big { // parameters too large to evaluate: identity only
		k := uni(t, 1, 1<<20, "k")
		switch intn(t, 7, "bigKind") {
		case 0:
			g = ref.Arithmetic{NumOps: k}
		case 1:
			g = ref.ArithmeticExtension{NumOps: k}
		case 2:
			g = ref.MulExtension{NumOps: k}
		case 3:
			g = ref.Constant{Num: k}
		case 4:
			g = ref.Reducing{N: k}
		case 5:
			g = ref.ReducingExtension{N: k}
		default:
			g = ref.BaseSum{NumLimbs: k, Base: uni(t, 2, 1<<16, "base")}
		}
		id = g.ID()
	}
	want := construct(g)
	var last gates.Gate
	for i := 0; i < 6; i++ {
		var x gates.Gate
		if p := try(func() { x = gates.GateInstanceFromId(id) }); p != nil {
			t.Fatalf("parsing %q failed: %v", id, p)
		}
		if reflect.TypeOf(x) != reflect.TypeOf(want) || x.Id() != want.Id() {
			t.Fatalf("parsing %q gives %T %+v, want %T %+v", id, x, x, want, want)
		}
		last = x
	}
	if !big {
		_, consts, wires, pih := drawRow(t, g)
		evalGate(t, eng.Native, "parsed", g, last, consts, wires, pih)
	}
	h.Case(g.NumWires() > 0, gateName(g)+fmt.Sprintf("/big=%v", big), id)
}

const phantom = "_phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField>"

// unsupported identifiers of Plonky2 and of gate libraries built on it
func drawUnknown(t *T) (class, id string) {
	n := uni(t, 1, 70, "n")
	m := uni(t, 1, 20, "m")
	class = pick(t, []string{"other", "other", "degree", "decorated", "truncated", "field", "misc"}, "class")
	switch class {
	case "other":
		id = pick(t, []string{
			fmt.Sprintf("U32ArithmeticGate { num_ops: %d, %s }", n, phantom),
			fmt.Sprintf("U32AddManyGate { num_addends: %d, num_ops: %d, %s }", m, n, phantom),
			fmt.Sprintf("U32RangeCheckGate { num_input_limbs: %d, %s }", n, phantom),
			fmt.Sprintf("U32SubtractionGate { num_ops: %d, %s }", n, phantom),
			fmt.Sprintf("U32InterleaveGate { num_ops: %d }", n),
			fmt.Sprintf("UninterleaveToU32Gate { num_ops: %d }", n),
			fmt.Sprintf("ComparisonGate { num_bits: %d, num_chunks: %d, %s }<D=2>", n, m, phantom),
			fmt.Sprintf("AssertLessThanGate { num_bits: %d, num_chunks: %d, %s }<D=2>", n, m, phantom),
			fmt.Sprintf("SwitchGate { chunk_size: %d, num_copies: %d, %s }<D=2>", n, m, phantom),
			fmt.Sprintf("InsertionGate { vec_size: %d, %s }<D=2>", n, phantom),
			fmt.Sprintf("LookupGate {num_slots: %d, lut_hash: [%d, 3, 4]}", n, m),
			fmt.Sprintf("LookupTableGate {num_slots: %d, lut_hash: [%d, 3, 4], last_lut_row: 5}", n, m),
			fmt.Sprintf("HighDegreeInterpolationGate { subgroup_bits: %d, %s }<D=2>", m, phantom),
			fmt.Sprintf("LowDegreeInterpolationGate { subgroup_bits: %d, %s }<D=2>", m, phantom),
			fmt.Sprintf("Poseidon2Gate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=%d>", m),
			fmt.Sprintf("KeccakGate { num_ops: %d }", n),
			fmt.Sprintf("ByteDecompositionGate { num_limbs: %d, num_copies: %d }", m, n),
			"GMiMCGate",
		}, "id")
	case "degree":
		d := pick(t, []int{1, 3, 4, 5, 8, 20, 22, 12, 16}, "D")
		switch intn(t, 3, "which") {
		case 0:
			id = strings.Replace(ref.Exponentiation{Bits: n}.ID(), "<D=2>", fmt.Sprintf("<D=%d>", d), 1)
		case 1:
			id = strings.Replace(ref.RandomAccess{Bits: uni(t, 1, 5, "b"), Copies: m, Extra: 2}.ID(), "<D=2>", fmt.Sprintf("<D=%d>", d), 1)
		default:
			id = strings.Replace(ref.CosetInterpolation{Bits: 2, Deg: 3}.ID(), "<D=2>", fmt.Sprintf("<D=%d>", d), 1)
		}
	case "decorated": // a supported name inside another gate's name
		pre := pick(t, []string{"U32", "Not", "My", "Cubic", "Ext", "X", "Big"}, "prefix")
		g := drawGate(t, true)
		id = pre + g.ID()
	case "truncated":
		g := pick(t, []ref.Gate{ref.Arithmetic{NumOps: n}, ref.ArithmeticExtension{NumOps: n}, ref.Constant{Num: m}, ref.MulExtension{NumOps: m}, ref.Reducing{N: n}, ref.ReducingExtension{N: n}, ref.Exponentiation{Bits: n}, ref.RandomAccess{Bits: 2, Copies: 3, Extra: 2}, ref.CosetInterpolation{Bits: 2, Deg: 3}}, "g")
		s := g.ID()
		id = s[:uni(t, 1, len(s)-1, "cut")]
	case "field": // parameters that are not numbers, or renamed
		g := pick(t, []ref.Gate{ref.Arithmetic{NumOps: n}, ref.ArithmeticExtension{NumOps: n}, ref.Constant{Num: m}, ref.MulExtension{NumOps: m}, ref.Reducing{N: n}, ref.ReducingExtension{N: n}, ref.Exponentiation{Bits: n}}, "g")
		s := g.ID()
		i := strings.IndexAny(s, "123456789")
		id = s[:i] + pick(t, []string{"-", "x", ""}, "junk") + strings.TrimLeft(s[i:], "0123456789")
	default:
		id = pick(t, []string{"", " ", "Gate", "Noop", "PublicInput", "Poseidon", "ArithmeticGate", "noopgate", "PoseidonMds", "BaseSumGate { num_limbs: 63 }", "BaseSumGate { num_limbs: 63 } + Base: ", "MulExtensionGate"}, "id")
	}
	return
}

func TestC11_unknown(t *testing.T) {
	Section(t, "identifiers of unsupported gates, supported gates over another extension degree, names that merely contain a supported one, and truncated or non-numeric ones must be refused; non-trivial: the identifier contains a supported gate's name or shape", 64000, 1000000, bodyC11unknown)
}

func bodyC11unknown(t *T, h *H) {
	class, id := drawUnknown(t)
	for i := 0; i < 4; i++ {
		var g gates.Gate
		if p := try(func() { g = gates.GateInstanceFromId(id) }); p == nil {
			t.Fatalf("unsupported identifier %q (%s) was mapped to %T %+v", id, class, g, g)
		}
	}
	h.Case(class != "misc", class, id)
}
