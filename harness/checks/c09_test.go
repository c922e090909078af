package checks

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/ref"
)

// chop is one call on a challenger.
type chop struct {
	who  int
	kind string
	n    int
	seed uint64
}

var chKinds = []string{"obs", "obs", "obsN", "obsN", "obsHash", "obsBN", "obsCap", "obsExt", "obsExts", "obsOpen", "get", "get", "get", "getN", "getExt", "getHash", "fri"}

func (o chop) String() string { return fmt.Sprintf("%d.%s(%d)", o.who, o.kind, o.n) }

func drawOps(t *T, max, who int) []chop {
	k := uni(t, 1, max, "ops")
	var ops []chop
	for i := 0; i < k; i++ {
		o := chop{who: intn(t, who, "who"), kind: pick(t, chKinds, "kind"), seed: seed(t)}
		switch o.kind {
		case "obsN":
			o.n = pick(t, []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17}, "n")
		case "obsCap":
			o.n = uni(t, 0, 5, "n")
		case "obsExts", "obsOpen":
			o.n = uni(t, 0, 9, "n")
		case "getN":
			o.n = uni(t, 0, 18, "n")
		case "fri":
			o.n = uni(t, 0, 3, "n")
		}
		if intn(t, 120, "long") == 119 {
			o.n += uni(t, 20, 150, "n")
			if o.kind == "fri" || o.kind == "obsCap" {
				o.n = uni(t, 6, 20, "n")
			}
		}
		ops = append(ops, o)
	}
	return ops
}

// unreduced sometimes gives a congruent representative at or above p.
func unreduced(r *ref.Rng, x uint64) frontend.Variable {
	if r.N(6) != 0 {
		return eng.U(x)
	}
	b := new(big.Int).Mul(eng.P, new(big.Int).SetUint64(r.U64()>>uint(r.N(64))))
	return eng.B(b.Add(b, new(big.Int).SetUint64(x)))
}

type chRun struct {
	c *challenger.Chip
	r *ref.Challenger
}

// apply performs o on both sides and returns the squeezed values (got, want).
func (s *chRun) apply(o chop, loose bool) (got []gl.Variable, want []uint64) {
	r := ref.NewRng(o.seed)
	el := func(x uint64) gl.Variable {
		if loose {
			return gl.NewVariable(unreduced(r, x))
		}
		return conv.Engine.Gl(x)
	}
	ex := func() (ref.E, gl.QuadraticExtensionVariable) {
		e := r.E()
		return e, gl.QuadraticExtensionVariable{el(e[0]), el(e[1])}
	}
	exs := func(n int) (a []ref.E, b []gl.QuadraticExtensionVariable) {
		for i := 0; i < n; i++ {
			x, y := ex()
			a, b = append(a, x), append(b, y)
		}
		return
	}
	put := func(vs []gl.Variable, ws []uint64) { got, want = append(got, vs...), append(want, ws...) }
	switch o.kind {
	case "obs":
		x := r.F()
		s.c.ObserveElement(el(x))
		s.r.Observe(x)
	case "obsN":
		xs := r.Fs(o.n)
		var vs []gl.Variable
		for _, x := range xs {
			vs = append(vs, el(x))
		}
		s.c.ObserveElements(vs)
		s.r.Observe(xs...)
	case "obsHash":
		var hh [4]uint64
		var v [4]gl.Variable
		for i := range hh {
			hh[i] = r.F()
			v[i] = el(hh[i])
		}
		s.c.ObserveHash(v)
		s.r.ObserveHash(hh)
	case "obsBN":
		x := rfr(r)
		s.c.ObserveBN254Hash(conv.Engine.F(x))
		s.r.ObserveBN(x)
	case "obsCap":
		xs := rfrs(r, o.n)
		s.c.ObserveCap(conv.Engine.Fs(xs))
		s.r.ObserveCap(xs)
	case "obsExt":
		a, b := ex()
		s.c.ObserveExtensionElement(b)
		s.r.ObserveExt(a)
	case "obsExts":
		a, b := exs(o.n)
		s.c.ObserveExtensionElements(b)
		s.r.ObserveExt(a...)
	case "obsOpen":
		a, b := exs(o.n)
		cut := r.N(o.n + 1)
		bs := []fri.OpeningBatch{{Values: b[:cut]}, {Values: b[cut:]}}
		if r.N(3) == 0 {
			bs = append(bs, fri.OpeningBatch{})
		}
		s.c.ObserveOpenings(fri.Openings{Batches: bs})
		s.r.ObserveExt(a...)
	case "get":
		put([]gl.Variable{s.c.GetChallenge()}, []uint64{s.r.Get()})
	case "getN":
		put(s.c.GetNChallenges(uint64(o.n)), s.r.GetN(o.n))
	case "getExt":
		v := s.c.GetExtensionChallenge()
		e := s.r.GetExt()
		put(v[:], e[:])
	case "getHash":
		v := s.c.GetHash()
		put(v[:], s.r.GetN(4))
	case "fri":
		var caps [][]fr.Element
		for i := 0; i < o.n; i++ {
			caps = append(caps, rfrs(r, r.N(4)))
		}
		a, b := exs(r.N(6))
		pow := r.F()
		nq := r.N(12)
		if r.N(20) == 0 {
			nq = 12 + r.N(80)
		}
		f := s.c.GetFriChallenges(conv.Engine.Caps(caps), variables.PolynomialCoeffs{Coeffs: b}, el(pow), types.FriConfig{NumQueryRounds: uint64(nq)})
		w := ref.FriTranscript(s.r, caps, a, pow, nq)
		put(f.FriAlpha[:], w.Alpha[:])
		for i := range f.FriBetas {
			put(f.FriBetas[i][:], nil)
		}
		for i := range w.Betas {
			want = append(want, w.Betas[i][0], w.Betas[i][1])
		}
		put([]gl.Variable{f.FriPowResponse}, []uint64{w.Pow})
		put(f.FriQueryIndices, w.Indices)
	}
	return
}

func opsString(ops []chop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

func TestC09_history(t *testing.T) {
	Section(t, "interleaved histories of 1..14 calls on two challengers in one circuit, every squeezed value compared with the reference duplex sponge; non-trivial: a squeeze follows an observation on the same challenger", 3000, 60000, bodyC09history)
}

func bodyC09history(t *T, h *H) {
	ops := drawOps(t, 14, 2)
	loose := rapid.IntRange(0, 2).Draw(t, "loose") == 2
	m := pick(t, []eng.Mode{eng.Native, eng.Native, eng.Native, eng.Native, eng.Plain}, "mode")
	obs := [2]bool{}
	nt := false
	accept(t, m, opsString(ops), func(api frontend.API) {
		s := [2]*chRun{{challenger.NewChip(api), &ref.Challenger{}}, {challenger.NewChip(api), &ref.Challenger{}}}
		var all []gl.Variable
		var wantAll []uint64
		for i, o := range ops {
			if strings.HasPrefix(o.kind, "obs") {
				obs[o.who] = true
			} else if obs[o.who] {
				nt = true
			}
			got, want := s[o.who].apply(o, loose)
			if len(got) != len(want) {
				t.Fatalf("op %d of [%s]: %d values, want %d", i, opsString(ops), len(got), len(want))
			}
			all, wantAll = append(all, got...), append(wantAll, want...)
			for k := range got {
				if g, ok := conv.RdGl(got[k]); !ok || g != want[k] {
					t.Fatalf("op %d of [%s]: value %d = %v want %d", i, opsString(ops), k, eng.Get(got[k].Limb), want[k])
				}
			}
		}
		// challenges already handed out do not change with later calls
		for k := range all {
			if g, _ := conv.RdGl(all[k]); g != wantAll[k] {
				t.Fatalf("[%s]: challenge %d changed after it was returned", opsString(ops), k)
			}
		}
	})
	h.Case(nt, fmt.Sprintf("loose=%v/%v", loose, m), opsString(ops), ops[0].seed)
}

func TestC09_forge(t *testing.T) {
	Section(t, "histories of 2..5 calls with hint calls forged: accepted runs must still squeeze the reference values; non-trivial: all", 120, 3000, bodyC09forge)
}

func bodyC09forge(t *T, h *H) {
	ops := append(drawOps(t, 4, 1), chop{kind: "get", seed: seed(t)})
	var got []gl.Variable
	var want []uint64
	f := func(api frontend.API) {
		got, want = nil, nil
		s := chRun{challenger.NewChip(api), &ref.Challenger{}}
		for _, o := range ops {
			g, w := s.apply(o, true)
			got, want = append(got, g...), append(want, w...)
		}
	}
	runs, _ := attackAll(t, eng.Native, 24, f, func(what string) {
		for k := range got {
			if g, ok := conv.RdGl(got[k]); !ok || g != want[k] {
				t.Fatalf("[%s] with %s accepted: value %d = %v want %d", opsString(ops), what, k, eng.Get(got[k].Limb), want[k])
			}
		}
	})
	h.Evals(runs)
	h.Case(true, "forge", opsString(ops), ops[0].seed)
}
