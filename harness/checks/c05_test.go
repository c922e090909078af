package checks

import (
	"fmt"
	"math/big"
	"os"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/rangecheck"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// outer draws any element of the outer field, concentrated where range checks go wrong.
func outer(t *T, label string) *big.Int {
	x := new(big.Int)
	switch rapid.IntRange(0, 8).Draw(t, label+"kind") {
	case 0, 1:
		x.SetUint64(felt(t, label))
	case 2: // just around p and 2^64
		x.Set(pick(t, []*big.Int{eng.P, pow2(64), pow2(63), pow2(32)}, label+"anchor"))
		x.Add(x, big.NewInt(rapid.Int64Range(-70000, 70000).Draw(t, label+"d")))
	case 3: // non-canonical 64-bit values
		x.SetUint64(ref.P + rapid.Uint64Range(0, 1<<32-2).Draw(t, label+"nc"))
	case 4: // canonical value plus a multiple of p
		x.Mul(eng.P, new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<40).Draw(t, label+"k")))
		x.Add(x, new(big.Int).SetUint64(felt(t, label)))
	case 5: // negative small
		x.Neg(new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<40).Draw(t, label+"n")))
	case 6: // high limb patterns h*2^32+l
		x.SetUint64(pick(t, []uint64{0xffffffff, 0xfffffffe, 0x100000000, 0x80000000, 0}, label+"h"))
		x.Lsh(x, 32)
		x.Add(x, new(big.Int).SetUint64(pick(t, []uint64{0, 1, 2, 0xffffffff, 0x100000000, 0xfffffffe}, label+"l")))
	case 7: // fractions: values whose double etc. is small
		x.ModInverse(new(big.Int).SetUint64(2+rapid.Uint64Range(0, 1<<34).Draw(t, label+"inv")), eng.N)
	default:
		r := ref.NewRng(seed(t))
		for i := 0; i < 4; i++ {
			x.Lsh(x, 64)
			x.Add(x, new(big.Int).SetUint64(r.U64()))
		}
		x.Rsh(x, uint(intn(t, 256, label+"sh")))
	}
	return x.Mod(x, eng.N)
}

// The canonical range check accepts exactly [0,p).
func TestC05_canonical(t *testing.T) {
	Section(t, "RangeCheck / RangeCheckQE of any outer-field value in the native and bit-decomposition mechanisms, honest and with every hint call forged (one evaluation per run); non-trivial: value within 2^33 of p or out of range", 18000, 500000, bodyC05canonical)
}

func bodyC05canonical(t *T, h *H) {
	x := outer(t, "x")
	in := x.Cmp(eng.P) < 0
	m := drawMode(t)
	form := pick(t, []string{"plain", "qe0", "qe1", "const"}, "form")
	f := func(api frontend.API) {
		c := gl.New(api)
		v := gl.NewVariable(eng.B(x))
		switch form {
		case "plain":
			c.RangeCheck(v)
		case "qe0":
			c.RangeCheckQE(gl.NewQuadraticExtensionVariable(v, conv.Engine.Gl(5)))
		case "qe1":
			c.RangeCheckQE(gl.NewQuadraticExtensionVariable(conv.Engine.Gl(5), v))
		case "const":
			c.RangeCheck(gl.NewVariable(x))
		}
	}
	err := run(eng.Opt{Mode: m}, f)
	if in && err != nil {
		t.Fatalf("RangeCheck(%v) [%v %s] rejects an in-range value: %v", x, m, form, err)
	}
	if !in && err == nil {
		t.Fatalf("RangeCheck(%v) [%v %s] accepts", x, m, form)
	}
	if !in {
		if err := run(eng.Opt{Mode: m, Lenient: true}, f); err == nil {
			t.Fatalf("RangeCheck(%v) [%v %s] accepts natural limbs", x, m, form)
		}
		n, _ := attackAll(t, m, 120, f, func(what string) { t.Fatalf("RangeCheck(%v) [%v %s] accepts: %s", x, m, form, what) })
		h.Evals(n)
		// every low/high limb split a prover could try with one limb pinned to a boundary
		n, _ = attackAll(t, m, 40, f, func(what string) { t.Fatalf("RangeCheck(%v) [%v %s] accepts: %s", x, m, form, what) })
		h.Evals(n)
	}
	d := new(big.Int).Sub(x, eng.P)
	h.Case(!in || d.CmpAbs(pow2(33)) < 0, fmt.Sprintf("%s/in=%v", form, in), x, m)
}

// The n-bit range check accepts exactly [0,2^n).
func TestC05_bits(t *testing.T) {
	Section(t, "RangeCheckWithMaxBits(x,n), n 1..253, native and bit-decomposition mechanisms, honest and forged; non-trivial: x within 4 of 2^n, or out of range by less than 2^20", 24000, 600000, bodyC05bits)
}

func bodyC05bits(t *T, h *H) {
	n := uni(t, 1, 253, "n")
	if rapid.Bool().Draw(t, "usual") {
		n = pick(t, []int{1, 2, 8, 16, 32, 48, 56, 63, 64, 128, 144, 192}, "un")
	}
	x := outer(t, "x")
	near := false
	switch rapid.IntRange(0, 3).Draw(t, "near") {
	case 0, 1:
		x = new(big.Int).Add(pow2(n), big.NewInt(int64(rapid.IntRange(-4, 4).Draw(t, "d"))))
		x.Mod(x, eng.N)
		near = true
	case 2:
		x = bigBelow(t, n, "below")
	}
	in := x.BitLen() <= n
	m := drawMode(t)
	f := func(api frontend.API) { gl.New(api).RangeCheckWithMaxBits(gl.NewVariable(eng.B(x)), uint64(n)) }
	err := run(eng.Opt{Mode: m}, f)
	if in != (err == nil) {
		t.Fatalf("RangeCheckWithMaxBits(%v,%d) [%v]: in range %v, verdict %v", x, n, m, in, err)
	}
	if !in {
		k, _ := attackAll(t, m, 16, f, func(what string) { t.Fatalf("RangeCheckWithMaxBits(%v,%d) accepts: %s", x, n, what) })
		h.Evals(k)
	}
	h.Case(near || !in, fmt.Sprintf("n%d/in=%v", (n+63)/64*64, in), x, n, m)
}

// padded runs f in the commitment mechanism together with enough other checks for it to be usable.
func padded(o eng.Opt, n int, f func(api frontend.API, c *gl.Chip)) error {
	o.Mode = eng.Commit
	return run(o, func(api frontend.API) {
		c := gl.New(api)
		z := gl.NewVariable(eng.U(12345))
		for i := 0; i < n; i++ {
			c.RangeCheckWithMaxBits(z, 32)
		}
		f(api, c)
	})
}

const padN = 90000

func TestC05_commit(t *testing.T) {
	Section(t, "commitment mechanism with 90000 padding checks: RangeCheck, RangeCheckWithMaxBits (aligned and misaligned widths), MulAdd and Reduce under natural or forged hints; non-trivial: the value is out of range, or at a boundary", 240, 2400, bodyC05commit)
}

func bodyC05commit(t *T, h *H) {
	kind := pick(t, []string{"canon", "canon", "bits", "bits", "misaligned", "misaligned", "reduce", "muladd"}, "kind")
	x := outer(t, "x")
	switch kind {
	case "canon":
		in := x.Cmp(eng.P) < 0
		err := padded(eng.Opt{Lenient: true}, padN, func(api frontend.API, c *gl.Chip) { c.RangeCheck(gl.NewVariable(eng.B(x))) })
		if in != (err == nil) {
			t.Fatalf("commit RangeCheck(%v): in range %v, verdict %v", x, in, err)
		}
	case "bits":
		n := 16 * uni(t, 1, 12, "n16")
		switch rapid.IntRange(0, 2).Draw(t, "near") {
		case 1:
			x = new(big.Int).Add(pow2(n), big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
		case 2:
			x = bigBelow(t, n, "below")
		}
		in := x.BitLen() <= n
		err := padded(eng.Opt{Lenient: true}, padN, func(api frontend.API, c *gl.Chip) { c.RangeCheckWithMaxBits(gl.NewVariable(eng.B(x)), uint64(n)) })
		if in != (err == nil) {
			t.Fatalf("commit RangeCheckWithMaxBits(%v,%d): in range %v, verdict %v", x, n, in, err)
		}
	case "misaligned": // must be enforced or refused, never skipped
		n := uni(t, 1, 200, "n")
		if rapid.IntRange(0, 2).Draw(t, "below") > 0 {
			x = new(big.Int).Add(pow2(n), new(big.Int).Mod(x, pow2(n)))
		}
		if x.BitLen() <= n {
			x.SetBit(x, n, 1)
		}
		pad := pick(t, []int{0, 10, 3000, padN}, "pad")
		if err := padded(eng.Opt{Lenient: true}, pad, func(api frontend.API, c *gl.Chip) { c.RangeCheckWithMaxBits(gl.NewVariable(eng.B(x)), uint64(n)) }); err == nil {
			t.Fatalf("commit RangeCheckWithMaxBits(%v,%d) with %d other checks accepts", x, n, pad)
		}
	case "reduce", "muladd":
		a, b, d := steered(t)
		y := bigBelow(t, 200, "y")
		k := intn(t, 22, "strategy")
		idx := intn(t, 3, "hint")
		adv := &eng.Adversary{At: map[int]eng.Strategy{idx: {Kind: k, R: seed(t)}}}
		var got gl.Variable
		want := new(big.Int).Mod(y, eng.P)
		err := padded(eng.Opt{Lenient: true, Hinter: adv}, padN, func(api frontend.API, c *gl.Chip) {
			if kind == "reduce" {
				got = c.Reduce(gl.NewVariable(eng.B(y)))
			} else {
				got = c.MulAdd(conv.Engine.Gl(a), conv.Engine.Gl(b), conv.Engine.Gl(d))
				want.SetUint64(ref.Add(ref.Mul(a, b), d))
			}
		})
		if adv.Fired == 0 && err != nil {
			t.Fatalf("commit %s honest: %v", kind, err)
		}
		if err == nil && eng.Get(got.Limb).Cmp(want) != 0 {
			t.Fatalf("commit %s (a=%d b=%d d=%d y=%v) hint %d strategy %d accepted with %v, want %v", kind, a, b, d, y, idx, k, eng.Get(got.Limb), want)
		}
	}
	h.Case(true, kind, x)
}

// A value that is checked again, with other widths and in any order, is held to every one of its checks.
func TestC05_history(t *testing.T) {
	Section(t, "histories of 2..8 canonical and n-bit range checks on 1..3 shared values, in the native, bit-decomposition and (padded) commitment mechanisms; accepted iff every check holds; non-trivial: some value meets one of its checks and fails another", 3200, 60000, bodyC05history)
}

func bodyC05history(t *T, h *H) {
	m := pick(t, []eng.Mode{eng.Native, eng.Plain, eng.Plain, eng.Native, eng.Native, eng.Plain, eng.Plain, eng.Native, eng.Native, eng.Plain, eng.Plain, eng.Native, eng.Commit}, "mode")
	nv := uni(t, 1, 3, "values")
	vals := make([]*big.Int, nv)
	for i := range vals {
		if rapid.Bool().Draw(t, "small") {
			vals[i] = bigBelow(t, 1+intn(t, 100, "bits"), "v")
		} else {
			vals[i] = outer(t, "v")
		}
	}
	type check struct{ v, bits int } // bits 0: the canonical check
	cs := make([]check, uni(t, 2, 8, "checks"))
	ok, fails, holds := true, make([]bool, nv), make([]bool, nv)
	for i := range cs {
		c := check{v: intn(t, nv, "which")}
		switch rapid.IntRange(0, 3).Draw(t, "width") {
		case 0:
		case 1:
			c.bits = 16 * uni(t, 1, 12, "n16")
		default: // a width the value just misses or just meets
			c.bits = vals[c.v].BitLen() + pick(t, []int{-16, -1, 0, 0, 16}, "off")
			if m == eng.Commit {
				c.bits = (c.bits + 15) / 16 * 16
			}
			if c.bits < 1 || c.bits > 240 {
				c.bits = 16
			}
		}
		in := vals[c.v].Cmp(eng.P) < 0
		if c.bits > 0 {
			in = vals[c.v].BitLen() <= c.bits
		}
		ok = ok && in
		holds[c.v], fails[c.v] = holds[c.v] || in, fails[c.v] || !in
		cs[i] = c
	}
	f := func(api frontend.API, c *gl.Chip) {
		vs := make([]gl.Variable, nv)
		for i := range vs {
			vs[i] = gl.NewVariable(eng.B(vals[i]))
		}
		for _, k := range cs {
			if k.bits == 0 {
				c.RangeCheck(vs[k.v])
			} else {
				c.RangeCheckWithMaxBits(vs[k.v], uint64(k.bits))
			}
		}
	}
	var err error
	if m == eng.Commit {
		err = padded(eng.Opt{Lenient: true}, padN, f)
	} else {
		err = run(eng.Opt{Mode: m, Lenient: true}, func(api frontend.API) { f(api, gl.New(api)) })
	}
	if ok != (err == nil) {
		t.Fatalf("[%v] values %v, checks (value, bits; 0 bits: canonical) %v: all hold %v, verdict %v", m, vals, cs, ok, err)
	}
	mixed := false
	for i := range vals {
		mixed = mixed || holds[i] && fails[i]
	}
	h.Case(mixed, fmt.Sprintf("%v/ok=%v", m, ok), vals, cs)
}

// An explicitly requested bit decomposition is used, whatever the backend offers.
func TestC05_env(t *testing.T) {
	os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	defer os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
	Section(t, "range checks with USE_BIT_DECOMPOSITION_RANGE_CHECK=true on native, committing and plain backends; non-trivial: out of range or at the boundary", 6000, 120000, func(t *T, h *H) {
		m := pick(t, []eng.Mode{eng.Native, eng.Commit, eng.Plain}, "mode")
		x := outer(t, "x")
		n := uni(t, 1, 253, "n")
		canon := rapid.Bool().Draw(t, "canon")
		if !canon && rapid.Bool().Draw(t, "near") {
			x = new(big.Int).Add(pow2(n), big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "d"))))
			x.Mod(x, eng.N)
		}
		in := x.BitLen() <= n
		if canon {
			in = x.Cmp(eng.P) < 0
		}
		f := func(api frontend.API) {
			if canon {
				gl.New(api).RangeCheck(gl.NewVariable(eng.B(x)))
			} else {
				gl.New(api).RangeCheckWithMaxBits(gl.NewVariable(eng.B(x)), uint64(n))
			}
		}
		err := run(eng.Opt{Mode: m, Lenient: true}, f)
		if in != (err == nil) {
			t.Fatalf("value %v (canonical check %v, n=%d, %v): in range %v, verdict %v", x, canon, n, m, in, err)
		}
		if !in {
			k, _ := attackAll(t, m, 12, f, func(what string) { t.Fatalf("value %v (canonical check %v, n=%d) accepts: %s", x, canon, n, what) })
			h.Evals(k)
		}
		h.Case(!in || x.BitLen() >= 63, fmt.Sprintf("%v/canon=%v/in=%v", m, canon, in), x, n)
	})
}

var _ fr.Element

// The rest of the circuit may range-check values of its own with gnark's gadget, which collects the checks of
// the whole circuit and picks one limb width for all of them.
func TestC05_shared(t *testing.T) {
	Section(t, "commitment mechanism in circuits that also range-check values of their own through gnark (up to 150000 checks of 1..70 bits, gadget made before or after the chip): aligned and canonical checks on boundary values; never accepted out of range, accepted in range; non-trivial: gnark would pick another width than 16 for all checks together", 64, 480, bodyC05shared)
}

// optimalWidth is gnark's choice for a number of checks of each width (R1CS).
func optimalWidth(n map[int]int) int {
	best, at := -1, 0
	for b := 2; b < 18; b++ {
		c := 1 << b
		for bits, k := range n {
			c += k*((bits+b-1)/b) + k
		}
		if best < 0 || c < best {
			best, at = c, b
		}
	}
	return at
}

type funcCircuit struct {
	In []frontend.Variable
	f  func(api frontend.API, a, b, c frontend.Variable)
}

func (c *funcCircuit) Define(api frontend.API) error {
	c.f(api, c.In[0], c.In[1], c.In[2])
	return nil
}

// solvedFunc compiles f, a circuit of three secret inputs, and solves it.
func solvedFunc(f func(api frontend.API, a, b, c frontend.Variable), backend string, in ...*big.Int) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	ccs, err := compileAny(&funcCircuit{In: make([]frontend.Variable, len(in)), f: f}, backend)
	if err != nil {
		return err
	}
	w, err := frontend.NewWitness(&funcCircuit{In: vars(in)}, ecc.BN254.ScalarField())
	must(err)
	return solveWith(ccs, w)
}

func bodyC05shared(t *T, h *H) {
	w := pick(t, []int{17, 17, 33, 34, 51, 66, 68, 8, 1, uni(t, 1, 70, "width")}, "foreign width")
	k := pick(t, []int{1, 20000, 150000, 150000}, "foreign checks")
	first := rapid.Bool().Draw(t, "gadget first")
	bits := pick(t, []int{0, 0, 16, 32, 48, 64, 112, 144, 208}, "bits")
	x := outer(t, "x")
	if bits > 0 {
		x = new(big.Int).Add(pow2(bits), big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "d"))))
	} else if rapid.Bool().Draw(t, "near") {
		x = new(big.Int).Add(eng.P, big.NewInt(int64(rapid.IntRange(-2, 40).Draw(t, "d"))))
	}
	if intn(t, 3, "wide") == 0 && bits < 200 {
		x = bigBelow(t, bits+4, "wide value")
	}
	in := x.Cmp(eng.P) < 0
	if bits > 0 {
		in = x.BitLen() <= bits
	}
	backend := pick(t, []string{"", "", "", "", "", "", "r1cs", "scs"}, "compiled")
	all := optimalWidth(map[int]int{w: k, 32: padN})
	g := func(api frontend.API, xv, pad, one frontend.Variable) {
		var rc frontend.Rangechecker
		if first {
			rc = rangecheck.New(api)
		}
		c := gl.New(api)
		if !first {
			rc = rangecheck.New(api)
		}
		z := gl.NewVariable(pad)
		for i := 0; i < padN; i++ {
			c.RangeCheckWithMaxBits(z, 32)
		}
		for i := 0; i < k; i++ {
			rc.Check(one, w)
		}
		if v := gl.NewVariable(xv); bits > 0 {
			c.RangeCheckWithMaxBits(v, uint64(bits))
		} else {
			c.RangeCheck(v)
		}
	}
	f := func(api frontend.API) { g(api, eng.B(x), eng.U(12345), eng.U(1)) }
	var err error
	if backend == "" {
		err = run(eng.Opt{Mode: eng.Commit, Lenient: true}, f)
	} else {
		quiet(func() { err = solvedFunc(g, backend, x, big.NewInt(12345), big.NewInt(1)) })
	}
	if in != (err == nil) {
		t.Fatalf("value %v, %d bits (0: canonical) next to %d checks of %d bits (gadget made first: %v; one width for all would be %d): in range %v, verdict %v", x, bits, k, w, first, all, in, err)
	}
	if !in && bits == 0 && backend == "" { // the limbs of the canonical check are hinted
		n, _ := attackAll(t, eng.Commit, 3, f, func(what string) { t.Fatalf("value %v next to %d checks of %d bits accepts: %s", x, k, w, what) })
		h.Evals(n)
	}
	h.Case(all != 16, fmt.Sprintf("width %d/first=%v/in=%v%s", all, first, in, backend), x, bits, w, k)
}
