package checks

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// Whatever a single forged hint call (every call, every strategy) or a pair of them claims, an
// accepted run of a base operation has the right result.
func TestC04_base(t *testing.T) {
	Section(t, "every hint call of a reduced base operation forged with every strategy (outer-field wrap-around, +-p, solved quotients, bit carries), results steered to small values; one evaluation per forged run; non-trivial: result below 2^32-1 or operand at a boundary (the forgeable corner)", 16000, 400000, bodyC04base)
}

func bodyC04base(t *T, h *H) {
	a, b, d := steered(t)
	op := pick(t, []string{"Add", "Sub", "Mul", "MulAdd", "Reduce", "ReduceMax", "Inverse", "RangeCheck"}, "op")
	small := rapid.IntRange(0, 2).Draw(t, "forceSmall") > 0
	tgt := rapid.Uint64Range(0, 1<<32-2).Draw(t, "tgt")
	if small {
		switch op {
		case "Add":
			b = ref.Sub(tgt, a)
		case "Sub":
			b = ref.Sub(a, tgt)
		case "Mul":
			if a == 0 {
				a = 5
			}
			b = ref.Mul(tgt, ref.Inv(a))
		case "MulAdd":
			d = ref.Sub(tgt, ref.Mul(a, b))
		case "Inverse":
			if tgt != 0 {
				a = ref.Inv(tgt)
			}
		}
	}
	x := bigBelow(t, 200, "x")
	n := uni(t, 16, 176, "n")
	if op == "ReduceMax" {
		x = bigBelow(t, n+63, "x2")
	}
	if small && (op == "Reduce" || op == "ReduceMax") {
		x.Sub(x, new(big.Int).Mod(x, eng.P))
		x.Add(x, new(big.Int).SetUint64(tgt))
	}
	m := drawMode(t)
	var got gl.Variable
	var has frontend.Variable
	var want *big.Int
	u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	f := func(api frontend.API) {
		c := gl.New(api)
		va, vb, vd := conv.Engine.Gl(a), conv.Engine.Gl(b), conv.Engine.Gl(d)
		switch op {
		case "Add":
			got, want = c.Add(va, vb), u(ref.Add(a, b))
		case "Sub":
			got, want = c.Sub(va, vb), u(ref.Sub(a, b))
		case "Mul":
			got, want = c.Mul(va, vb), u(ref.Mul(a, b))
		case "MulAdd":
			got, want = c.MulAdd(va, vb, vd), u(ref.Add(ref.Mul(a, b), d))
		case "Reduce":
			got, want = c.Reduce(gl.NewVariable(eng.B(x))), new(big.Int).Mod(x, eng.P)
		case "ReduceMax":
			got, want = c.ReduceWithMaxBits(gl.NewVariable(eng.B(x)), uint64(n)), new(big.Int).Mod(x, eng.P)
		case "Inverse":
			got, has = c.Inverse(va)
			want = u(ref.Inv(a))
		case "RangeCheck":
			c.RangeCheck(va)
			got, want = va, u(a)
		}
	}
	desc := fmt.Sprintf("%s a=%d b=%d d=%d x=%v n=%d", op, a, b, d, x, n)
	check := func(what string) {
		if op == "Inverse" {
			w := int64(1)
			if a == 0 {
				w = 0
			}
			if eng.Get(has).Cmp(big.NewInt(w)) != 0 {
				t.Fatalf("%s: %s accepted with hasInv=%v", desc, what, eng.Get(has))
			}
			if a == 0 {
				return // the returned value is meaningless then
			}
		}
		if eng.Get(got.Limb).Cmp(want) != 0 {
			t.Fatalf("%s: %s accepted with result %v, want %v", desc, what, eng.Get(got.Limb), want)
		}
	}
	if err := run(eng.Opt{Mode: m}, f); err != nil {
		t.Fatalf("%s: honest run: %v", desc, err)
	}
	check("honest")
	runs, acc := attackAll(t, m, 220, f, check)
	h.Evals(runs)
	h.Class("forged-accepted-same-result", acc)
	h.Case(small || a <= 1 || a >= ref.P-2, op, desc, m)
}

// Extension-field operations under forged hints.
func TestC04_ext(t *testing.T) {
	Section(t, "hint calls of a reduced extension-field operation forged (all calls x strategies up to 150 runs, sampled beyond, plus pairs); one evaluation per forged run; non-trivial: operand not in the base field", 4000, 120000, bodyC04ext)
}

func bodyC04ext(t *T, h *H) {
	a, b, d := ext(t, "a"), ext(t, "b"), ext(t, "d")
	s := felt(t, "s")
	op := pick(t, []string{"Add", "Sub", "Mul", "MulAdd", "SubMul", "Scalar", "Inner", "Inverse", "Div", "Exp", "Powers", "Reduce"}, "op")
	e := rapid.Uint64Range(0, 40).Draw(t, "e")
	if ref.EIsZero(b) {
		b = ref.EOne
	}
	if rapid.IntRange(0, 2).Draw(t, "force") > 0 { // steer results to small limbs
		tg := ref.E{rapid.Uint64Range(0, 1<<32-2).Draw(t, "t0"), rapid.Uint64Range(0, 1<<32-2).Draw(t, "t1")}
		switch op {
		case "Add":
			a = ref.ESub(tg, b)
		case "Sub":
			a = ref.EAdd(tg, b)
		case "Mul":
			a = ref.EDiv(tg, b)
		case "MulAdd":
			d = ref.ESub(tg, ref.EMul(a, b))
		case "SubMul":
			if !ref.EIsZero(d) {
				a = ref.EAdd(b, ref.EDiv(tg, d))
			}
		case "Inverse":
			if !ref.EIsZero(tg) {
				b = ref.EInv(tg)
			}
		case "Div":
			a = ref.EMul(tg, b)
		}
	}
	m := drawMode(t)
	var got gl.QuadraticExtensionVariable
	var want ref.E
	f := func(api frontend.API) {
		c := gl.New(api)
		E := conv.Engine.E
		va, vb, vd := E(a), E(b), E(d)
		switch op {
		case "Add":
			got, want = c.AddExtension(va, vb), ref.EAdd(a, b)
		case "Sub":
			got, want = c.SubExtension(va, vb), ref.ESub(a, b)
		case "Mul":
			got, want = c.MulExtension(va, vb), ref.EMul(a, b)
		case "MulAdd":
			got, want = c.MulAddExtension(va, vb, vd), ref.EAdd(ref.EMul(a, b), d)
		case "SubMul":
			got, want = c.SubMulExtension(va, vb, vd), ref.EMul(ref.ESub(a, b), d)
		case "Scalar":
			got, want = c.ScalarMulExtension(va, conv.Engine.Gl(s)), ref.EScale(a, s)
		case "Inner":
			got = c.InnerProductExtension(conv.Engine.Gl(s), vd, [][2]gl.QuadraticExtensionVariable{{va, vb}, {vb, vb}})
			want = ref.EAdd(d, ref.EScale(ref.EAdd(ref.EMul(a, b), ref.EMul(b, b)), s))
		case "Inverse":
			got, _ = c.InverseExtension(vb)
			want = ref.EInv(b)
		case "Div":
			got, _ = c.DivExtension(va, vb)
			want = ref.EDiv(a, b)
		case "Exp":
			got, want = c.ExpExtension(va, e), ref.EExp(a, e)
		case "Powers":
			got, want = c.ReduceWithPowers([]gl.QuadraticExtensionVariable{va, vb, vd}, va), ref.EPoly([]ref.E{a, b, d}, a)
		case "Reduce":
			got, want = c.ReduceExtension(c.MulExtensionNoReduce(va, vb)), ref.EMul(a, b)
		}
	}
	desc := fmt.Sprintf("%s a=%v b=%v d=%v s=%d e=%d", op, a, b, d, s, e)
	check := func(what string) {
		if g, ok := conv.RdE(got); !ok || g != want {
			t.Fatalf("%s: %s accepted with result (%v,%v), want %v", desc, what, eng.Get(got[0].Limb), eng.Get(got[1].Limb), want)
		}
	}
	if err := run(eng.Opt{Mode: m}, f); err != nil {
		t.Fatalf("%s: honest run: %v", desc, err)
	}
	check("honest")
	runs, acc := attackAll(t, m, 150, f, check)
	h.Evals(runs)
	h.Class("forged-accepted-same-result", acc)
	h.Case(a[1] != 0 && b[1] != 0, op, desc, m)
}

// The zero test is forced, and the inverse of zero cannot be claimed.
func TestC04_zero(t *testing.T) {
	Section(t, "InverseExtension/DivExtension of zero under every forged hint; one evaluation per forged run; non-trivial: all", 400, 10000, bodyC04zero)
}

func bodyC04zero(t *T, h *H) {
	a := ext(t, "a")
	div := rapid.Bool().Draw(t, "div")
	m := drawMode(t)
	f := func(api frontend.API) {
		c := gl.New(api)
		if div {
			c.DivExtension(conv.Engine.E(a), conv.Engine.E(ref.E{}))
		} else {
			c.InverseExtension(conv.Engine.E(ref.E{}))
		}
	}
	if err := run(eng.Opt{Mode: m, Lenient: true}, f); err == nil {
		t.Fatalf("inverse of zero accepted (div=%v)", div)
	}
	runs, _ := attackAll(t, m, 150, f, func(what string) { t.Fatalf("inverse of zero accepted (div=%v): %s", div, what) })
	h.Evals(runs)
	h.Case(true, fmt.Sprintf("div=%v", div), a, m)
}
