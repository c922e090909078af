package checks

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

func drawState(t *T) [12]uint64 {
	var s [12]uint64
	k := rapid.IntRange(0, 3).Draw(t, "stateKind")
	r := ref.NewRng(seed(t))
	for i := range s {
		switch k {
		case 0:
			s[i] = felt(t, "s")
		case 1:
			s[i] = ref.Boundary[r.N(len(ref.Boundary))]
		default:
			s[i] = r.F()
		}
	}
	return s
}

func glState(s [12]uint64, c conv.C) (o poseidon.GoldilocksState) {
	for i := range o {
		o[i] = c.Gl(s[i])
	}
	return
}

func TestC07_perm(t *testing.T) {
	Section(t, "Goldilocks Poseidon permutation on boundary, hand-drawn and uniform states, twice on the same chip; non-trivial: state not all zero", 1600, 30000, bodyC07perm)
}

func bodyC07perm(t *T, h *H) {
	s := drawState(t)
	cc := conv.Engine
	if rapid.IntRange(0, 7).Draw(t, "const") == 7 {
		cc = conv.Const
	}
	m := drawMode(t)
	accept(t, m, fmt.Sprintf("Poseidon(%v)", s), func(api frontend.API) {
		c := poseidon.NewGoldilocksChip(api)
		in := glState(s, cc)
		cp := in
		o := c.Poseidon(in)
		w := ref.PoseidonGL(s)
		for i := range o {
			if g, ok := conv.RdGl(o[i]); !ok || g != w[i] {
				t.Fatalf("Poseidon(%v)[%d] = %v want %d", s, i, eng.Get(o[i].Limb), w[i])
			}
		}
		if in != cp {
			t.Fatalf("Poseidon changed its input")
		}
		if rapid.IntRange(0, 3).Draw(t, "again") == 3 {
			o2 := c.Poseidon(o)
			w2 := ref.PoseidonGL(w)
			for i := range o2 {
				if g, ok := conv.RdGl(o2[i]); !ok || g != w2[i] {
					t.Fatalf("Poseidon^2(%v)[%d] = %v want %d", s, i, eng.Get(o2[i].Limb), w2[i])
				}
			}
		}
	})
	h.Case(s != [12]uint64{}, fmt.Sprint(m), s)
}

func TestC07_hash(t *testing.T) {
	Section(t, "HashNToMNoPad (0..300 canonical inputs, 1..25 outputs) and HashNoPad (0..300 inputs, reduced or not); non-trivial: more than one block or unreduced inputs", 1600, 30000, bodyC07hash)
}

func bodyC07hash(t *T, h *H) {
	n := uni(t, 0, 40, "n")
	if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
		n = pick(t, []int{0, 1, 7, 8, 9, 15, 16, 17, 24, 25}, "edgeN")
	}
	if intn(t, 25, "long") == 24 {
		n = uni(t, 41, 300, "n")
	}
	r := ref.NewRng(seed(t))
	in := r.Fs(n)
	m := drawMode(t)
	if rapid.Bool().Draw(t, "nopad") {
		un := 0
		vs := make([]gl.Variable, n, n+4)
		for i := range vs {
			x := new(big.Int).SetUint64(in[i])
			if r.N(3) == 0 {
				un++
				k := new(big.Int).Lsh(new(big.Int).SetUint64(r.U64()), uint(r.N(70)))
				x.Add(x, k.Mul(k, eng.P))
			}
			vs[i] = gl.NewVariable(eng.B(x))
		}
		cp := append([]gl.Variable(nil), vs...)
		accept(t, m, fmt.Sprintf("HashNoPad(%v)", in), func(api frontend.API) {
			o := poseidon.NewGoldilocksChip(api).HashNoPad(vs)
			w := ref.HashNoPad(in)
			for i := range o {
				if g, ok := conv.RdGl(o[i]); !ok || g != w[i] {
					t.Fatalf("HashNoPad of %d elements %v [%d] = %v want %d", n, in, i, eng.Get(o[i].Limb), w[i])
				}
			}
			for i := range cp {
				if cp[i] != vs[i] {
					t.Fatalf("HashNoPad changed its input slice at %d", i)
				}
			}
		})
		h.Case(n > 8 || un > 0, "HashNoPad", n, in, un)
		return
	}
	k := uni(t, 1, 25, "outputs")
	accept(t, m, fmt.Sprintf("HashNToM(%v,%d)", in, k), func(api frontend.API) {
		c := poseidon.NewGoldilocksChip(api)
		o := c.HashNToMNoPad(conv.Engine.Gls(in), k)
		w := ref.HashNToM(in, k)
		if len(o) != k {
			t.Fatalf("HashNToMNoPad returned %d outputs, want %d", len(o), k)
		}
		for i := range o {
			if g, ok := conv.RdGl(o[i]); !ok || g != w[i] {
				t.Fatalf("HashNToMNoPad(%d elements %v, %d)[%d] = %v want %d", n, in, k, i, eng.Get(o[i].Limb), w[i])
			}
		}
		if k == 4 {
			v := c.ToVec(poseidon.GoldilocksHashOut{o[0], o[1], o[2], o[3]})
			for i := range v {
				if v[i] != o[i] {
					t.Fatalf("ToVec reordered the hash")
				}
			}
		}
	})
	h.Case(n > 8 || k > 8, "HashNToM", n, k, in)
}

func TestC07_forge(t *testing.T) {
	Section(t, "hint calls inside the permutation and inside HashNoPad forged (sampled call x strategy, biased to calls on large values, singles and pairs; one evaluation per run); non-trivial: all", 260, 6000, bodyC07forge)
}

func bodyC07forge(t *T, h *H) {
	s := drawState(t)
	small := rapid.IntRange(0, 2).Draw(t, "small")
	if small == 2 {
		for i := range s {
			s[i] %= 1000
		}
	}
	m := pick(t, []eng.Mode{eng.Native, eng.Native, eng.Native, eng.Plain}, "mode")
	hash := rapid.IntRange(0, 3).Draw(t, "hash") == 3
	var out []gl.Variable
	var want []uint64
	x := bigBelow(t, 200, "x")
	f := func(api frontend.API) {
		c := poseidon.NewGoldilocksChip(api)
		if hash {
			o := c.HashNoPad([]gl.Variable{gl.NewVariable(eng.B(x)), conv.Engine.Gl(s[0])})
			w := ref.HashNoPad([]uint64{new(big.Int).Mod(x, eng.P).Uint64(), s[0]})
			out, want = o[:], w[:]
			return
		}
		o := c.Poseidon(glState(s, conv.Engine))
		w := ref.PoseidonGL(s)
		out, want = o[:], w[:]
	}
	runs, _ := attackAll(t, m, 48, f, func(what string) {
		for i := range out {
			if g, ok := conv.RdGl(out[i]); !ok || g != want[i] {
				t.Fatalf("state %v x %v hash=%v: %s accepted, output[%d] = %v want %d", s, x, hash, what, i, eng.Get(out[i].Limb), want[i])
			}
		}
	})
	h.Evals(runs)
	h.Case(true, fmt.Sprintf("hash=%v/%v", hash, m), s, x)
}
