package checks

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// operand makes a circuit operand for x: a variable or a constant.
func operand(t *T, x uint64, label string) gl.Variable {
	if rapid.IntRange(0, 4).Draw(t, label+"const") == 4 {
		switch {
		case x == 0:
			return gl.Zero()
		case x == 1:
			return gl.One()
		case x == ref.P-1:
			return gl.NegOne()
		}
		return conv.Const.Gl(x)
	}
	return conv.Engine.Gl(x)
}

type baseOp struct {
	name   string
	n      int // operands
	reduce bool
	run    func(c *gl.Chip, a, b, d gl.Variable) gl.Variable
	want   func(a, b, d uint64) uint64
}

var baseOps = []baseOp{
	{"Add", 2, true, func(c *gl.Chip, a, b, _ gl.Variable) gl.Variable { return c.Add(a, b) }, func(a, b, _ uint64) uint64 { return ref.Add(a, b) }},
	{"Sub", 2, true, func(c *gl.Chip, a, b, _ gl.Variable) gl.Variable { return c.Sub(a, b) }, func(a, b, _ uint64) uint64 { return ref.Sub(a, b) }},
	{"Mul", 2, true, func(c *gl.Chip, a, b, _ gl.Variable) gl.Variable { return c.Mul(a, b) }, func(a, b, _ uint64) uint64 { return ref.Mul(a, b) }},
	{"MulAdd", 3, true, func(c *gl.Chip, a, b, d gl.Variable) gl.Variable { return c.MulAdd(a, b, d) }, func(a, b, d uint64) uint64 { return ref.Add(ref.Mul(a, b), d) }},
	{"AddNoReduce", 2, false, func(c *gl.Chip, a, b, _ gl.Variable) gl.Variable { return c.AddNoReduce(a, b) }, func(a, b, _ uint64) uint64 { return ref.Add(a, b) }},
	{"SubNoReduce", 2, false, func(c *gl.Chip, a, b, _ gl.Variable) gl.Variable { return c.SubNoReduce(a, b) }, func(a, b, _ uint64) uint64 { return ref.Sub(a, b) }},
	{"MulNoReduce", 2, false, func(c *gl.Chip, a, b, _ gl.Variable) gl.Variable { return c.MulNoReduce(a, b) }, func(a, b, _ uint64) uint64 { return ref.Mul(a, b) }},
	{"MulAddNoReduce", 3, false, func(c *gl.Chip, a, b, d gl.Variable) gl.Variable { return c.MulAddNoReduce(a, b, d) }, func(a, b, d uint64) uint64 { return ref.Add(ref.Mul(a, b), d) }},
}

// steered draws operands, sometimes adjusted so that the result is a chosen (boundary or small) value.
func steered(t *T) (a, b, d uint64) {
	a, b, d = felt(t, "a"), felt(t, "b"), felt(t, "d")
	switch rapid.IntRange(0, 3).Draw(t, "steer") {
	case 2: // make a*b+d hit a chosen value
		d = ref.Sub(felt(t, "target"), ref.Mul(a, b))
	case 3: // make a+b / a-b hit a chosen value
		b = ref.Sub(felt(t, "target"), a)
		if rapid.Bool().Draw(t, "neg") {
			b = ref.Neg(b)
		}
	}
	return
}

// Every base operation returns the mathematical value.
func TestC03_ops(t *testing.T) {
	Section(t, "one base-field operation on canonical operands (boundary, small, uniform; result steered to boundary values; variables and constants; shared operands); non-trivial: all operands > 1", 240000, 6000000, bodyC03ops)
}

func bodyC03ops(t *T, h *H) {
	op := pick(t, baseOps, "op")
	a, b, d := steered(t)
	va, vb, vd := operand(t, a, "va"), operand(t, b, "vb"), operand(t, d, "vd")
	if rapid.IntRange(0, 9).Draw(t, "share") == 9 {
		b, d, vb, vd = a, a, va, va
	}
	m := drawMode(t)
	accept(t, m, fmt.Sprintf("%s(%d,%d,%d)", op.name, a, b, d), func(api frontend.API) {
		c := gl.New(api)
		r := op.run(c, va, vb, vd)
		w := op.want(a, b, d)
		if op.reduce {
			if g, ok := conv.RdGl(r); !ok || g != w {
				t.Fatalf("%s(%d,%d,%d) = %v, want %d", op.name, a, b, d, eng.Get(r.Limb), w)
			}
		} else if conv.ModP(r) != w {
			t.Fatalf("%s(%d,%d,%d) = %v, not congruent to %d", op.name, a, b, d, eng.Get(r.Limb), w)
		}
	})
	h.Case(a > 1 && b > 1 && (op.n == 2 || d > 1), op.name, a, b, d, m)
}

// bigBelow draws an integer below 2^bits: uniform, close to the bound, or k*p+r with small r.
func bigBelow(t *T, bits int, label string) *big.Int {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	x := new(big.Int)
	switch rapid.IntRange(0, 4).Draw(t, label+"kind") {
	case 0:
		x.SetUint64(felt(t, label))
	case 1, 2:
		r := ref.NewRng(seed(t))
		for i := 0; i < 5; i++ {
			x.Lsh(x, 64)
			x.Add(x, new(big.Int).SetUint64(r.U64()))
		}
		x.Rsh(x, uint(intn(t, bits, label+"sh")))
	case 3:
		x.Sub(lim, new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<33).Draw(t, label+"d")))
	default: // a multiple of p, plus or minus a bit
		r := ref.NewRng(seed(t))
		for i := 0; i < 3; i++ {
			x.Lsh(x, 64)
			x.Add(x, new(big.Int).SetUint64(r.U64()))
		}
		x.Rsh(x, uint(intn(t, 192, label+"sh")))
		x.Mul(x, eng.P)
		x.Add(x, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, label+"off"))))
	}
	if x.Sign() < 0 {
		x.Neg(x)
	}
	return x.Mod(x, lim)
}

func TestC03_reduce(t *testing.T) {
	Section(t, "Reduce of values below 2^200 and ReduceWithMaxBits(x,n) of values below p*2^n (n 16..180); non-trivial: x >= p", 120000, 3000000, bodyC03reduce)
}

func bodyC03reduce(t *T, h *H) {
	n := 0
	bits := 200
	if rapid.Bool().Draw(t, "withMax") {
		n = uni(t, 1, 180, "n")
		bits = n + 63
	}
	x := bigBelow(t, bits, "x")
	m := drawMode(t)
	want := new(big.Int).Mod(x, eng.P)
	accept(t, m, fmt.Sprintf("Reduce(%v) max %d", x, n), func(api frontend.API) {
		c := gl.New(api)
		v := gl.NewVariable(eng.B(x))
		if rapid.IntRange(0, 5).Draw(t, "const") == 5 {
			v = gl.NewVariable(x)
		}
		var r gl.Variable
		if n == 0 {
			r = c.Reduce(v)
		} else {
			r = c.ReduceWithMaxBits(v, uint64(n))
		}
		if eng.Get(r.Limb).Cmp(want) != 0 {
			t.Fatalf("Reduce(%v) max %d = %v, want %v", x, n, eng.Get(r.Limb), want)
		}
	})
	h.Case(x.Cmp(eng.P) >= 0, fmt.Sprintf("reduce-%d", (n+31)/32*32), x, n, m)
}

func TestC03_inverse(t *testing.T) {
	Section(t, "Inverse and AssertIsEqual on canonical operands including zero; non-trivial: operand > 1", 64000, 1500000, bodyC03inverse)
}

func bodyC03inverse(t *T, h *H) {
	x, y := felt(t, "x"), felt(t, "y")
	if rapid.IntRange(0, 3).Draw(t, "eq") == 3 {
		y = x
	}
	m := drawMode(t)
	vx, vy := operand(t, x, "vx"), operand(t, y, "vy")
	accept(t, m, fmt.Sprintf("Inverse(%d)", x), func(api frontend.API) {
		c := gl.New(api)
		inv, has := c.Inverse(vx)
		hv := eng.Get(has)
		if x == 0 {
			if hv.Sign() != 0 {
				t.Fatalf("Inverse(0) claims to be invertible (%v)", hv)
			}
			return
		}
		if g, ok := conv.RdGl(inv); !ok || g != ref.Inv(x) || hv.Cmp(big.NewInt(1)) != 0 {
			t.Fatalf("Inverse(%d) = %v,%v want %d,1", x, eng.Get(inv.Limb), hv, ref.Inv(x))
		}
	})
	err := run(eng.Opt{Mode: m}, func(api frontend.API) { gl.New(api).AssertIsEqual(vx, vy) })
	if (err == nil) != (x == y) {
		t.Fatalf("AssertIsEqual(%d,%d): %v", x, y, err)
	}
	h.Case(x > 1, fmt.Sprintf("inverse/eq=%v", x == y), x, y, m)
}

func TestC03_roots(t *testing.T) {
	Section(t, "PrimitiveRootOfUnity for every order, TwoAdicSubgroup up to 2^11, refusal above the two-adicity; non-trivial: n >= 1", 1000, 10000, bodyC03roots)
}

func bodyC03roots(t *T, h *H) {
	n := uni(t, 0, 40, "n")
	if n > 32 {
		if try(func() { gl.PrimitiveRootOfUnity(uint64(n)) }) == nil || try(func() { gl.TwoAdicSubgroup(uint64(n)) }) == nil {
			t.Fatalf("order 2^%d was not refused", n)
		}
		h.Case(true, "refuse", n)
		return
	}
	if g := gl.PrimitiveRootOfUnity(uint64(n)); g.Uint64() != ref.RootOfUnity(n) {
		t.Fatalf("PrimitiveRootOfUnity(%d) = %d want %d", n, g.Uint64(), ref.RootOfUnity(n))
	}
	if n <= 11 {
		s := gl.TwoAdicSubgroup(uint64(n))
		w := ref.Subgroup(n)
		if len(s) != len(w) {
			t.Fatalf("TwoAdicSubgroup(%d) has %d elements", n, len(s))
		}
		for i := range w {
			if s[i].Uint64() != w[i] {
				t.Fatalf("TwoAdicSubgroup(%d)[%d] = %d want %d", n, i, s[i].Uint64(), w[i])
			}
		}
	}
	h.Case(n > 0, "root", n)
}

// A straight-line program over registers, mixing reduced and unreduced operations within the
// documented bit budget, computes the right values.
func TestC03_programs(t *testing.T) {
	Section(t, "straight-line programs of 2..25 base operations over shared registers, unreduced values kept below 2^200; non-trivial: at least 5 operations, one of them unreduced", 30000, 600000, bodyC03programs)
}

func bodyC03programs(t *T, h *H) {
	nIn := uni(t, 1, 4, "inputs")
	type reg struct {
		v    gl.Variable
		want uint64
		bits int // bound on the integer value
	}
	var regs []reg
	for i := 0; i < nIn; i++ {
		x := felt(t, "in")
		regs = append(regs, reg{operand(t, x, "vin"), x, 64})
	}
	type step struct{ op, a, b, c int }
	var steps []step
	n := uni(t, 2, 25, "steps")
	for i := 0; i < n; i++ {
		steps = append(steps, step{intn(t, len(baseOps)+2, "op"), intn(t, nIn+i, "a"), intn(t, nIn+i, "b"), intn(t, nIn+i, "c")})
	}
	m := drawMode(t)
	un := 0
	trace := ""
	accept(t, m, "program", func(api frontend.API) {
		c := gl.New(api)
		canon := func(r reg) reg {
			if r.bits > 64 {
				return reg{c.Reduce(r.v), r.want, 64}
			}
			return r
		}
		for _, s := range steps {
			a, b, d := regs[s.a], regs[s.b], regs[s.c]
			var o reg
			switch {
			case s.op == len(baseOps):
				o = reg{c.Reduce(a.v), a.want, 64}
				trace += " Reduce"
			case s.op > len(baseOps):
				a = canon(a)
				if a.want == 0 {
					o = a
					break
				}
				v, _ := c.Inverse(a.v)
				o = reg{v, ref.Inv(a.want), 64}
				trace += " Inverse"
			default:
				op := baseOps[s.op]
				bits := 64
				if op.reduce {
					a, b, d = canon(a), canon(b), canon(d)
				} else {
					un++
					switch op.name {
					case "AddNoReduce":
						bits = max(a.bits, b.bits) + 1
					case "SubNoReduce":
						bits = max(a.bits, b.bits+64) + 1
					case "MulNoReduce":
						bits = a.bits + b.bits
					default:
						bits = max(a.bits+b.bits, d.bits) + 1
					}
					if bits > 200 {
						a, b, d = canon(a), canon(b), canon(d)
						bits = 130
					}
				}
				o = reg{op.run(c, a.v, b.v, d.v), op.want(a.want, b.want, d.want), bits}
				trace += " " + op.name
			}
			if eng.Get(o.v.Limb).BitLen() > o.bits || conv.ModP(o.v) != o.want || (o.bits == 64 && eng.Get(o.v.Limb).Cmp(eng.P) >= 0) {
				t.Fatalf("after%s: value %v, want %d", trace, eng.Get(o.v.Limb), o.want)
			}
			regs = append(regs, o)
		}
		for i, r := range regs { // earlier registers keep their value
			if conv.ModP(r.v) != r.want {
				t.Fatalf("register %d changed after%s", i, trace)
			}
		}
	})
	h.Case(n >= 5 && un > 0, fmt.Sprintf("len%d", (n+4)/5*5), trace, regs[0].want, m)
}
