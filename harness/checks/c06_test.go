package checks

import (
	"fmt"
	"math/big"
	"testing"

	glf "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// opE makes an extension operand: variables, constants, or a mixture.
func opE(t *T, x ref.E, label string) gl.QuadraticExtensionVariable {
	switch k := rapid.IntRange(0, 9).Draw(t, label+"k"); {
	case k == 9 && x == (ref.E{}):
		return gl.ZeroExtension()
	case k == 9 && x == ref.EOne:
		return gl.OneExtension()
	case k == 9:
		return conv.Const.E(x)
	case k == 8 && x[1] == 0:
		return conv.Engine.Gl(x[0]).ToQuadraticExtension()
	}
	return conv.Engine.E(x)
}

func eqE(t *T, what string, got gl.QuadraticExtensionVariable, want ref.E) {
	if g, ok := conv.RdE(got); !ok || g != want {
		t.Fatalf("%s = (%v,%v), want %v", what, eng.Get(got[0].Limb), eng.Get(got[1].Limb), want)
	}
}
func congE(t *T, what string, got gl.QuadraticExtensionVariable, want ref.E) {
	if g := (ref.E{conv.ModP(got[0]), conv.ModP(got[1])}); g != want {
		t.Fatalf("%s = (%v,%v), not congruent to %v", what, eng.Get(got[0].Limb), eng.Get(got[1].Limb), want)
	}
}

func extRelated(t *T, a, b ref.E) ref.E {
	switch rapid.IntRange(0, 8).Draw(t, "rel") {
	case 0:
		return a
	case 1:
		return ref.ENeg(a)
	case 2:
		return ref.E{a[0], ref.Neg(a[1])}
	case 3:
		return ref.E{a[0], b[1]}
	case 4:
		return ref.E{b[0], a[1]}
	case 5:
		return ref.E{a[1], a[0]}
	}
	return b
}

func TestC06_ops(t *testing.T) {
	ops := []string{"Add", "AddNR", "Sub", "SubNR", "Mul", "MulNR", "MulAdd", "MulAddNR", "SubMul", "Scalar", "Inverse", "Div", "Exp", "Reduce", "IsZero", "Lookup", "Lookup2", "AssertEq"}
	Section(t, "one extension-field operation on canonical operands (boundary, related and uniform limbs; variables and constants; exponents over 64 bits); non-trivial: some operand outside the base field", 160000, 5000000, func(t *T, h *H) {
		op := pick(t, ops, "op")
		a := ext(t, "a")
		b := extRelated(t, a, ext(t, "b"))
		d := extRelated(t, b, ext(t, "d"))
		s := felt(t, "s")
		var e uint64
		switch rapid.IntRange(0, 4).Draw(t, "ek") {
		case 0, 1:
			e = rapid.Uint64Range(0, 20).Draw(t, "e")
		case 2:
			e = uint64(1) << uint(intn(t, 64, "esh"))
		default:
			e = seed(t) >> uint(intn(t, 64, "esh2"))
		}
		i := intn(t, 4, "idx")
		va, vb, vd := opE(t, a, "va"), opE(t, b, "vb"), opE(t, d, "vd")
		x := [2]*big.Int{bigBelow(t, 200, "x0"), bigBelow(t, 200, "x1")}
		m := drawMode(t)
		what := fmt.Sprintf("%s a=%v b=%v d=%v s=%d e=%d i=%d", op, a, b, d, s, e, i)
		refused := false
		f := func(api frontend.API) {
			c := gl.New(api)
			switch op {
			case "Add":
				eqE(t, what, c.AddExtension(va, vb), ref.EAdd(a, b))
			case "AddNR":
				congE(t, what, c.AddExtensionNoReduce(va, vb), ref.EAdd(a, b))
			case "Sub":
				eqE(t, what, c.SubExtension(va, vb), ref.ESub(a, b))
			case "SubNR":
				congE(t, what, c.SubExtensionNoReduce(va, vb), ref.ESub(a, b))
			case "Mul":
				eqE(t, what, c.MulExtension(va, vb), ref.EMul(a, b))
			case "MulNR":
				congE(t, what, c.MulExtensionNoReduce(va, vb), ref.EMul(a, b))
			case "MulAdd":
				eqE(t, what, c.MulAddExtension(va, vb, vd), ref.EAdd(ref.EMul(a, b), d))
			case "MulAddNR":
				congE(t, what, c.MulAddExtensionNoReduce(va, vb, vd), ref.EAdd(ref.EMul(a, b), d))
			case "SubMul":
				eqE(t, what, c.SubMulExtension(va, vb, vd), ref.EMul(ref.ESub(a, b), d))
			case "Scalar":
				eqE(t, what, c.ScalarMulExtension(va, conv.Engine.Gl(s)), ref.EScale(a, s))
			case "Inverse":
				v, has := c.InverseExtension(va)
				if ref.EIsZero(a) {
					t.Fatalf("%s: inverse of zero not refused", what)
				}
				eqE(t, what, v, ref.EInv(a))
				if eng.Get(has).Cmp(big.NewInt(1)) != 0 {
					t.Fatalf("%s: hasInv = %v", what, eng.Get(has))
				}
			case "Div":
				v, has := c.DivExtension(va, vb)
				if ref.EIsZero(b) {
					t.Fatalf("%s: division by zero not refused", what)
				}
				eqE(t, what, v, ref.EDiv(a, b))
				if eng.Get(has).Cmp(big.NewInt(1)) != 0 {
					t.Fatalf("%s: hasInv = %v", what, eng.Get(has))
				}
			case "Exp":
				eqE(t, what, c.ExpExtension(va, e), ref.EExp(a, e))
			case "Reduce":
				w := ref.E{new(big.Int).Mod(x[0], eng.P).Uint64(), new(big.Int).Mod(x[1], eng.P).Uint64()}
				eqE(t, what+fmt.Sprint(x), c.ReduceExtension(gl.NewQuadraticExtensionVariable(gl.NewVariable(eng.B(x[0])), gl.NewVariable(eng.B(x[1])))), w)
			case "IsZero":
				w := int64(0)
				if ref.EIsZero(a) {
					w = 1
				}
				if g := eng.Get(c.IsZero(va)); g.Cmp(big.NewInt(w)) != 0 {
					t.Fatalf("%s = %v", what, g)
				}
			case "Lookup":
				w := []ref.E{a, b}[i%2]
				eqE(t, what, c.Lookup(eng.U(uint64(i%2)), va, vb), w)
			case "Lookup2":
				w := []ref.E{a, b, d, {s, 3}}[i]
				eqE(t, what, c.Lookup2(eng.U(uint64(i&1)), eng.U(uint64(i>>1)), va, vb, vd, conv.Engine.E(ref.E{s, 3})), w)
			case "AssertEq":
				c.AssertIsEqualExtension(va, vb)
				if a != b {
					t.Fatalf("%s: unequal elements accepted", what)
				}
			}
		}
		switch {
		case op == "Inverse" && ref.EIsZero(a), op == "Div" && ref.EIsZero(b), op == "AssertEq" && a != b:
			refused = true
			if err := run(eng.Opt{Mode: m}, f); err == nil {
				t.Fatalf("%s: not refused", what)
			}
		default:
			accept(t, m, what, f)
		}
		h.Case(a[1] != 0 || b[1] != 0, fmt.Sprintf("%s/refused=%v", op, refused), what, m)
	})
}

func algOp(x ref.A) gl.QuadraticExtensionAlgebraVariable { return conv.Engine.A(x) }
func eqA(t *T, what string, got gl.QuadraticExtensionAlgebraVariable, want ref.A) {
	eqE(t, what+"[0]", got[0], want[0])
	eqE(t, what+"[1]", got[1], want[1])
}

func TestC06_algebra(t *testing.T) {
	Section(t, "one extension-algebra operation or a partial interpolation over 1..9 arbitrary points; non-trivial: all four coordinates of the operands non-zero", 24000, 600000, bodyC06algebra)
}

func bodyC06algebra(t *T, h *H) {
	op := pick(t, []string{"Add", "Sub", "Mul", "Scalar", "Embed", "Interp", "Interp", "Mismatch"}, "op")
	a, b, s := algel(t, "a"), algel(t, "b"), ext(t, "s")
	m := drawMode(t)
	what := fmt.Sprintf("%s %v %v %v", op, a, b, s)
	switch op {
	case "Interp", "Mismatch":
		n := uni(t, 1, 9, "n")
		var dom, ws []uint64
		var vals []ref.A
		r := ref.NewRng(seed(t))
		for i := 0; i < n; i++ {
			dom, ws = append(dom, r.F()), append(ws, r.F())
			vals = append(vals, ref.A{r.E(), r.E()})
		}
		if rapid.IntRange(0, 3).Draw(t, "real") == 3 {
			n = 8
			dom = ref.Subgroup(3)
			ws = ref.BarycentricWeights(dom)
			vals = nil
			for i := 0; i < n; i++ {
				vals = append(vals, ref.A{r.E(), r.E()})
			}
		}
		fd, fw := make([]glf.Element, n), make([]glf.Element, n)
		for i := range fd {
			fd[i].SetUint64(dom[i])
			fw[i].SetUint64(ws[i])
		}
		vv := make([]gl.QuadraticExtensionAlgebraVariable, n)
		for i := range vv {
			vv[i] = algOp(vals[i])
		}
		if op == "Mismatch" {
			k := intn(t, 3, "which")
			err := run(eng.Opt{Mode: m}, func(api frontend.API) {
				c := gl.New(api)
				switch k {
				case 0:
					c.PartialInterpolateExtAlgebra(fd[:n-1], vv, fw, algOp(a), algOp(b), algOp(a))
				case 1:
					c.PartialInterpolateExtAlgebra(fd, vv, fw[:n-1], algOp(a), algOp(b), algOp(a))
				default:
					c.PartialInterpolateExtAlgebra(nil, nil, nil, algOp(a), algOp(b), algOp(a))
				}
			})
			if err == nil {
				t.Fatalf("mismatched interpolation lengths accepted (%d)", k)
			}
			h.Case(true, op, n, k)
			return
		}
		x := ref.A{ext(t, "x0"), ext(t, "x1")}
		accept(t, m, what, func(api frontend.API) {
			ge, gp := gl.New(api).PartialInterpolateExtAlgebra(fd, vv, fw, algOp(x), algOp(a), algOp(b))
			we, wp := ref.APartialInterpolate(dom, vals, ws, x, a, b)
			eqA(t, what+" eval", ge, we)
			eqA(t, what+" prod", gp, wp)
		})
		h.Case(true, op, n, what)
		return
	}
	accept(t, m, what, func(api frontend.API) {
		c := gl.New(api)
		switch op {
		case "Add":
			eqA(t, what, c.AddExtensionAlgebra(algOp(a), algOp(b)), ref.AAdd(a, b))
		case "Sub":
			eqA(t, what, c.SubExtensionAlgebra(algOp(a), algOp(b)), ref.ASub(a, b))
		case "Mul":
			eqA(t, what, c.MulExtensionAlgebra(algOp(a), algOp(b)), ref.AMul(a, b))
		case "Scalar":
			eqA(t, what, c.ScalarMulExtensionAlgebra(conv.Engine.E(s), algOp(b)), ref.AScale(b, s))
		case "Embed":
			eqA(t, what, conv.Engine.E(s).ToQuadraticExtensionAlgebra(), ref.A{s, {}})
			eqA(t, what, gl.ZeroExtensionAlgebra(), ref.A{})
			eqA(t, what, gl.OneExtensionAlgebra(), ref.A{ref.EOne, {}})
			eqA(t, what, gl.NewQuadraticExtensionAlgebraVariable(conv.Engine.E(a[0]), conv.Engine.E(a[1])), a)
		}
	})
	h.Case(a[0][1] != 0 && a[1][0] != 0 && a[1][1] != 0, op, what, m)
}

// List operations: correct for every length, and the slices handed in (including the memory behind
// their end) are left alone.
func TestC06_lists(t *testing.T) {
	Section(t, "ReduceWithPowers over 0..400 terms and InnerProductExtension over 0..96 pairs, slices carved from larger arrays; non-trivial: at least two terms", 20000, 500000, bodyC06lists)
}

func bodyC06lists(t *T, h *H) {
	n := uni(t, 0, 40, "n")
	if intn(t, 40, "long") == 39 {
		n = uni(t, 41, 400, "n")
	}
	r := ref.NewRng(seed(t))
	sc, acc, k := ext(t, "sc"), ext(t, "acc"), felt(t, "k")
	m := drawMode(t)
	inner := rapid.Bool().Draw(t, "inner")
	if inner && n <= 40 {
		n %= 13
	} else if inner {
		n %= 97
	}
	xs, ys := r.Es(n), r.Es(n)
	accept(t, m, fmt.Sprintf("n=%d inner=%v", n, inner), func(api frontend.API) {
		c := gl.New(api)
		if inner {
			back := make([][2]gl.QuadraticExtensionVariable, n+5)
			for i := range back {
				back[i] = [2]gl.QuadraticExtensionVariable{conv.Engine.E(r.E()), conv.Engine.E(r.E())}
			}
			want := acc
			for i := range xs {
				back[i] = [2]gl.QuadraticExtensionVariable{conv.Engine.E(xs[i]), conv.Engine.E(ys[i])}
				want = ref.EAdd(want, ref.EScale(ref.EMul(xs[i], ys[i]), k))
			}
			cp := append([][2]gl.QuadraticExtensionVariable(nil), back...)
			eqE(t, fmt.Sprintf("InnerProduct k=%d acc=%v %v %v", k, acc, xs, ys), c.InnerProductExtension(conv.Engine.Gl(k), conv.Engine.E(acc), back[:n]), want)
			for i := range cp {
				if cp[i] != back[i] {
					t.Fatalf("InnerProductExtension changed element %d of %d handed in", i, n)
				}
			}
		} else {
			back := conv.Engine.Es(append(append([]ref.E(nil), xs...), r.Es(5)...))
			cp := append([]gl.QuadraticExtensionVariable(nil), back...)
			eqE(t, fmt.Sprintf("ReduceWithPowers x=%v %v", sc, xs), c.ReduceWithPowers(back[:n], conv.Engine.E(sc)), ref.EPoly(xs, sc))
			for i := range cp {
				if cp[i] != back[i] {
					t.Fatalf("ReduceWithPowers changed element %d of %d handed in", i, n)
				}
			}
		}
	})
	h.Case(n >= 2, fmt.Sprintf("inner=%v/n%d", inner, min((n+7)/8*8, 48)), n, xs, m)
}
