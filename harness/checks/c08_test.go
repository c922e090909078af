package checks

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// frel draws an outer-field element: boundary, chunk-structured or uniform.
func frel(t *T, label string) fr.Element {
	x := new(big.Int)
	switch rapid.IntRange(0, 6).Draw(t, label+"kind") {
	case 0:
		x.SetUint64(word.Draw(t, label))
	case 1: // close to the modulus
		x.Sub(eng.N, new(big.Int).SetUint64(1+rapid.Uint64Range(0, 1<<33).Draw(t, label)))
	case 2: // around a chunk boundary
		x = pow2(56 * uni(t, 1, 4, label+"chunk"))
		x.Add(x, big.NewInt(rapid.Int64Range(-3, 3).Draw(t, label+"d")))
	case 3: // small enough to have a second 254-bit representation
		x.Rsh(new(big.Int).Sub(pow2(254), eng.N), 1)
		x.Sub(x, new(big.Int).SetUint64(word.Draw(t, label)))
	case 4: // all-ones chunks
		for i := 0; i < 254; i++ {
			if intn(t, 8, label+"b") != 0 {
				x.SetBit(x, i, 1)
			}
		}
	default:
		r := ref.NewRng(seed(t))
		for i := 0; i < 4; i++ {
			x.Lsh(x, 64)
			x.Add(x, new(big.Int).SetUint64(r.U64()))
		}
	}
	x.Mod(x, eng.N)
	var e fr.Element
	e.SetBigInt(x)
	return e
}

func rfr(r *ref.Rng) fr.Element {
	x := new(big.Int)
	for i := 0; i < 4; i++ {
		x.Lsh(x, 64)
		x.Add(x, new(big.Int).SetUint64(r.U64()))
	}
	var e fr.Element
	e.SetBigInt(x)
	return e
}

func rfrs(r *ref.Rng, n int) []fr.Element {
	o := make([]fr.Element, n)
	for i := range o {
		o[i] = rfr(r)
	}
	return o
}

func TestC08_perm(t *testing.T) {
	Section(t, "BN254 Poseidon permutation and two-to-one compression on boundary and uniform outer-field states, variables and constants, repeated on one chip; non-trivial: state not all zero", 96000, 2000000, bodyC08perm)
}

func bodyC08perm(t *T, h *H) {
	var s [4]fr.Element
	for i := range s {
		s[i] = frel(t, "s")
	}
	cc := conv.Engine
	if rapid.IntRange(0, 7).Draw(t, "const") == 7 {
		cc = conv.Const
	}
	rounds := uni(t, 1, 3, "rounds")
	two := rapid.Bool().Draw(t, "two")
	accept(t, drawMode(t), "BN254 Poseidon", func(api frontend.API) {
		c := poseidon.NewBN254Chip(api)
		if two {
			l, r := cc.F(s[0]), cc.F(s[1])
			g := eng.GetFr(c.TwoToOne(l, r))
			w := ref.TwoToOne(s[0], s[1])
			if !g.Equal(&w) {
				t.Fatalf("TwoToOne(%v,%v) = %v want %v", s[0].String(), s[1].String(), g.String(), w.String())
			}
			return
		}
		var st poseidon.BN254State
		for i := range st {
			st[i] = cc.F(s[i])
		}
		w := s
		for k := 0; k < rounds; k++ {
			in := st
			st = c.Poseidon(in)
			w = ref.PoseidonBN(w)
			for i := range st {
				if g := eng.GetFr(st[i]); !g.Equal(&w[i]) {
					t.Fatalf("Poseidon^%d(%v)[%d] = %v want %v", k+1, s, i, g.String(), w[i].String())
				}
			}
		}
	})
	h.Case(s != [4]fr.Element{}, map[bool]string{true: "TwoToOne", false: "Poseidon"}[two], s)
}

func TestC08_leaf(t *testing.T) {
	Section(t, "HashNoPad / HashOrNoop of 0..600 Goldilocks elements (boundary-heavy, lengths around 3, 9 and multiples); non-trivial: at least 4 elements, or a boundary element", 32000, 600000, bodyC08leaf)
}

func bodyC08leaf(t *T, h *H) {
	n := uni(t, 0, 45, "n")
	if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
		n = pick(t, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 18, 19, 27, 28}, "edgeN")
	}
	if intn(t, 20, "long") == 19 {
		n = uni(t, 46, 600, "n")
	}
	r := ref.NewRng(seed(t))
	in := r.Fs(n)
	if n > 0 && rapid.Bool().Draw(t, "hand") {
		in[intn(t, n, "i")] = felt(t, "x")
	}
	noop := rapid.Bool().Draw(t, "orNoop")
	accept(t, drawMode(t), "leaf hash", func(api frontend.API) {
		c := poseidon.NewBN254Chip(api)
		vs := make([]gl.Variable, n, n+7)
		for i := range vs {
			vs[i] = conv.Engine.Gl(in[i])
		}
		cp := append([]gl.Variable(nil), vs...)
		var g, w fr.Element
		if noop {
			g, w = eng.GetFr(c.HashOrNoop(vs)), ref.HashOrNoop(in)
		} else {
			g, w = eng.GetFr(c.HashNoPad(vs)), ref.HashBN(in)
		}
		if !g.Equal(&w) {
			t.Fatalf("noop=%v: hash of %d elements %v = %v want %v", noop, n, in, g.String(), w.String())
		}
		for i := range cp {
			if vs[i] != cp[i] {
				t.Fatalf("hashing changed input %d", i)
			}
		}
	})
	h.Case(n >= 4, fmt.Sprintf("noop=%v/short=%v", noop, n <= 3), in)
}

func TestC08_tovec(t *testing.T) {
	Section(t, "digest to 56-bit chunks: values, chunk count and recombination over boundary and uniform digests, honest and with every hint call (if any) forged; non-trivial: digest >= 2^56", 48000, 1000000, bodyC08tovec)
}

func bodyC08tovec(t *T, h *H) {
	d := frel(t, "d")
	w := ref.ToVec(d)
	var out []gl.Variable
	f := func(api frontend.API) { out = poseidon.NewBN254Chip(api).ToVec(conv.Engine.F(d)) }
	check := func(what string) {
		if len(out) != len(w) {
			t.Fatalf("%s ToVec(%v) has %d chunks, want %d", what, d.String(), len(out), len(w))
		}
		for i := range w {
			if g := eng.Get(out[i].Limb); !g.IsUint64() || g.Uint64() != w[i] {
				t.Fatalf("%s ToVec(%v)[%d] = %v want %d", what, d.String(), i, g, w[i])
			}
		}
	}
	m := drawMode(t)
	accept(t, m, "ToVec", f)
	check("honest")
	runs, _ := attackAll(t, m, 40, f, check)
	h.Evals(runs)
	h.Case(d.BigInt(new(big.Int)).BitLen() > 56, fmt.Sprint(m), d.String())
}
