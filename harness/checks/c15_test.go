package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifharness/eng"
	"verifharness/prove"
	"verifharness/ref"
)

// ---- a JSON tree whose rendering (key order, white space, extra keys) is generated

type jobj struct {
	keys []string
	vals []any
}

func ob(kv ...any) *jobj {
	o := &jobj{}
	for i := 0; i < len(kv); i += 2 {
		o.keys = append(o.keys, kv[i].(string))
		o.vals = append(o.vals, kv[i+1])
	}
	return o
}

type jstyle struct {
	r       *ref.Rng
	shuffle bool
	spaces  bool
	extra   bool
}

func (s *jstyle) sp(b *bytes.Buffer) {
	if s.spaces {
		b.WriteString([]string{"", " ", "\n", "\t", "  \r\n"}[s.r.N(5)])
	}
}

func (s *jstyle) render(b *bytes.Buffer, v any) {
	s.sp(b)
	defer s.sp(b)
	switch x := v.(type) {
	case *jobj:
		ks, vs := append([]string(nil), x.keys...), append([]any(nil), x.vals...)
		if s.extra && s.r.N(3) == 0 {
			ks = append(ks, "verif_extra_key")
			vs = append(vs, []any{"x", uint64(3), ob("degree_bits", uint64(77))})
		}
		if s.shuffle {
			for i := len(ks) - 1; i > 0; i-- {
				j := s.r.N(i + 1)
				ks[i], ks[j], vs[i], vs[j] = ks[j], ks[i], vs[j], vs[i]
			}
		}
		b.WriteByte('{')
		for i := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			s.sp(b)
			b.WriteString(strconv.Quote(ks[i]))
			s.sp(b)
			b.WriteByte(':')
			s.render(b, vs[i])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			s.render(b, x[i])
		}
		b.WriteByte(']')
	case json.RawMessage:
		b.Write(x)
	default:
		e, err := json.Marshal(x)
		must(err)
		b.Write(e)
	}
}

func lst[X any](xs []X, f func(X) any) []any {
	o := []any{}
	for _, x := range xs {
		o = append(o, f(x))
	}
	return o
}
func jU(xs []uint64) []any     { return lst(xs, func(x uint64) any { return x }) }
func jF(xs []fr.Element) []any { return lst(xs, func(x fr.Element) any { return frS(x) }) }
func jE(xs []ref.E) []any      { return lst(xs, func(x ref.E) any { return []any{x[0], x[1]} }) }
func frS(x fr.Element) string  { return x.BigInt(new(big.Int)).String() }
func jS(xs []string) []any     { return lst(xs, func(x string) any { return x }) }
func jProof(p *ref.Proof, pis []uint64) *jobj {
	o := &p.Openings
	return ob("proof", ob(
		"wires_cap", jF(p.WiresCap), "plonk_zs_partial_products_cap", jF(p.ZsCap), "quotient_polys_cap", jF(p.QuotientCap),
		"openings", ob("constants", jE(o.Constants), "plonk_sigmas", jE(o.Sigmas), "wires", jE(o.Wires), "plonk_zs", jE(o.Zs),
			"plonk_zs_next", jE(o.ZsNext), "partial_products", jE(o.PartialProducts), "quotient_polys", jE(o.Quotient)),
		"opening_proof", ob(
			"commit_phase_merkle_caps", lst(p.Fri.CommitCaps, func(c []fr.Element) any { return jF(c) }),
			"query_round_proofs", lst(p.Fri.Queries, func(q ref.Query) any {
				return ob("initial_trees_proof", ob("evals_proofs", lst(q.Initial, func(i ref.InitialOpening) any {
					return []any{jU(i.Leaf), ob("siblings", jF(i.Siblings))}
				})), "steps", lst(q.Steps, func(s ref.Step) any {
					return ob("evals", jE(s.Evals), "merkle_proof", ob("siblings", jF(s.Siblings)))
				}))
			}),
			"final_poly", ob("coeffs", jE(p.Fri.FinalPoly)), "pow_witness", p.Fri.PowWitness)),
		"public_inputs", jU(pis))
}

// ---- values

type c15 struct{ r *ref.Rng }

func (g c15) u() uint64 { // any 64-bit value, not only canonical ones
	switch g.r.N(6) {
	case 0:
		return ref.Boundary[g.r.N(len(ref.Boundary))]
	case 1:
		return ^uint64(0) - uint64(g.r.N(3))
	case 2:
		return uint64(g.r.N(20))
	case 3:
		return 1<<53 + uint64(g.r.N(5)) // beyond a float64's integers
	}
	return g.r.U64()
}
func (g c15) us(n int) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = g.u()
	}
	return o
}
func (g c15) es(n int) []ref.E {
	o := make([]ref.E, n)
	for i := range o {
		o[i] = ref.E{g.u(), g.u()}
	}
	return o
}
func (g c15) f() fr.Element {
	var x fr.Element
	switch g.r.N(6) {
	case 0:
		x.SetUint64(uint64(g.r.N(3)))
	case 1:
		x.SetUint64(g.u())
	case 2:
		x.SetUint64(uint64(g.r.N(4)))
		x.Neg(&x)
	default:
		b := new(big.Int)
		for i := 0; i < 4; i++ {
			b.Lsh(b, 64).Add(b, new(big.Int).SetUint64(g.r.U64()))
		}
		x.SetBigInt(b)
	}
	return x
}
func (g c15) fs(n int) []fr.Element {
	o := make([]fr.Element, n)
	for i := range o {
		o[i] = g.f()
	}
	return o
}

// n draws a list length: 0, 1, small, sometimes long.
func (g c15) n(max int) int {
	switch g.r.N(6) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return g.r.N(max + 1)
}

func (g c15) proof() (*ref.Proof, []uint64) {
	long := 8
	if g.r.N(8) == 0 {
		long = 300
	}
	p := &ref.Proof{WiresCap: g.fs(g.n(18)), ZsCap: g.fs(g.n(18)), QuotientCap: g.fs(g.n(18))}
	p.Openings = ref.Openings{g.es(g.n(long)), g.es(g.n(long)), g.es(g.n(long)), g.es(g.n(long)), g.es(g.n(long)), g.es(g.n(long)), g.es(g.n(long))}
	for i, n := 0, g.n(5); i < n; i++ {
		p.Fri.CommitCaps = append(p.Fri.CommitCaps, g.fs(g.n(17)))
	}
	for i, n := 0, g.n(5); i < n; i++ {
		var q ref.Query
		for j, m := 0, g.n(5); j < m; j++ {
			q.Initial = append(q.Initial, ref.InitialOpening{g.us(g.n(long)), g.fs(g.n(20))})
		}
		for j, m := 0, g.n(4); j < m; j++ {
			q.Steps = append(q.Steps, ref.Step{g.es(g.n(17)), g.fs(g.n(12))})
		}
		p.Fri.Queries = append(p.Fri.Queries, q)
	}
	p.Fri.FinalPoly = g.es(g.n(40))
	p.Fri.PowWitness = g.u()
	return p, g.us(g.n(long))
}

// ---- comparison

type c15cmp struct {
	t    *T
	what string
	n    int
}

func (c *c15cmp) f(at string, got frontend.Variable, want fr.Element) {
	c.n++
	var x fr.Element
	if _, err := x.SetInterface(got); err != nil {
		c.t.Fatalf("%s: %s loaded as %T(%v): %v; file states %s", c.what, at, got, got, err, frS(want))
	}
	if !x.Equal(&want) {
		c.t.Fatalf("%s: %s is %s, file states %s", c.what, at, frS(x), frS(want))
	}
}
func (c *c15cmp) num(at string, got, want int) {
	if got != want {
		c.t.Fatalf("%s: %s has %d entries, file states %d", c.what, at, got, want)
	}
}
func (c *c15cmp) u(at string, got gl.Variable, want uint64) { c.f(at, got.Limb, fr.NewElement(want)) }
func (c *c15cmp) us(at string, got []gl.Variable, want []uint64) {
	c.num(at, len(got), len(want))
	for i := range want {
		c.u(fmt.Sprintf("%s[%d]", at, i), got[i], want[i])
	}
}
func (c *c15cmp) es(at string, got []gl.QuadraticExtensionVariable, want []ref.E) {
	c.num(at, len(got), len(want))
	for i := range want {
		c.u(fmt.Sprintf("%s[%d][0]", at, i), got[i][0], want[i][0])
		c.u(fmt.Sprintf("%s[%d][1]", at, i), got[i][1], want[i][1])
	}
}
func (c *c15cmp) fs(at string, got []poseidon.BN254HashOut, want []fr.Element) {
	c.num(at, len(got), len(want))
	for i := range want {
		c.f(fmt.Sprintf("%s[%d]", at, i), got[i], want[i])
	}
}
func (c *c15cmp) proof(got *variables.ProofWithPublicInputs, p *ref.Proof, pis []uint64) {
	v := &got.Proof
	c.fs("wires_cap", v.WiresCap, p.WiresCap)
	c.fs("plonk_zs_partial_products_cap", v.PlonkZsPartialProductsCap, p.ZsCap)
	c.fs("quotient_polys_cap", v.QuotientPolysCap, p.QuotientCap)
	c.openings(&v.Openings, &p.Openings)
	c.fri(&v.OpeningProof, &p.Fri)
	c.us("public_inputs", got.PublicInputs, pis)
}
func (c *c15cmp) openings(v *variables.OpeningSet, o *ref.Openings) {
	c.es("constants", v.Constants, o.Constants)
	c.es("plonk_sigmas", v.PlonkSigmas, o.Sigmas)
	c.es("wires", v.Wires, o.Wires)
	c.es("plonk_zs", v.PlonkZs, o.Zs)
	c.es("plonk_zs_next", v.PlonkZsNext, o.ZsNext)
	c.es("partial_products", v.PartialProducts, o.PartialProducts)
	c.es("quotient_polys", v.QuotientPolys, o.Quotient)
}
func (c *c15cmp) fri(v *variables.FriProof, p *ref.FriProof) {
	c.num("commit_phase_merkle_caps", len(v.CommitPhaseMerkleCaps), len(p.CommitCaps))
	for i := range p.CommitCaps {
		c.fs(fmt.Sprintf("commit_phase_merkle_caps[%d]", i), v.CommitPhaseMerkleCaps[i], p.CommitCaps[i])
	}
	c.num("query_round_proofs", len(v.QueryRoundProofs), len(p.Queries))
	for i, q := range p.Queries {
		g := v.QueryRoundProofs[i]
		at := fmt.Sprintf("query_round_proofs[%d]", i)
		c.num(at+".evals_proofs", len(g.InitialTreesProof.EvalsProofs), len(q.Initial))
		for j, in := range q.Initial {
			a := fmt.Sprintf("%s.evals_proofs[%d]", at, j)
			c.us(a+".leaf", g.InitialTreesProof.EvalsProofs[j].Elements, in.Leaf)
			c.fs(a+".siblings", g.InitialTreesProof.EvalsProofs[j].MerkleProof.Siblings, in.Siblings)
		}
		c.num(at+".steps", len(g.Steps), len(q.Steps))
		for j, st := range q.Steps {
			a := fmt.Sprintf("%s.steps[%d]", at, j)
			c.es(a+".evals", g.Steps[j].Evals, st.Evals)
			c.fs(a+".siblings", g.Steps[j].MerkleProof.Siblings, st.Siblings)
		}
	}
	c.es("final_poly", v.FinalPoly.Coeffs, p.FinalPoly)
	c.u("pow_witness", v.PowWitness, p.PowWitness)
}

// shared returns a description of two list fields of v whose elements share memory.
func shared(v any) string {
	type span struct {
		lo, hi uintptr
		at     string
	}
	var ss []span
	var walk func(x reflect.Value, at string)
	walk = func(x reflect.Value, at string) {
		switch x.Kind() {
		case reflect.Ptr:
			if !x.IsNil() {
				walk(x.Elem(), at)
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i), at+"."+x.Type().Field(i).Name)
			}
		case reflect.Array:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), fmt.Sprintf("%s[%d]", at, i))
			}
		case reflect.Slice:
			if x.Len() == 0 || x.Type().Elem().Size() == 0 {
				return
			}
			ss = append(ss, span{x.Pointer(), x.Pointer() + uintptr(x.Len())*x.Type().Elem().Size(), at})
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), fmt.Sprintf("%s[%d]", at, i))
			}
		}
	}
	walk(reflect.ValueOf(v), "")
	sort.Slice(ss, func(i, j int) bool { return ss[i].lo < ss[j].lo })
	for i := 1; i < len(ss); i++ {
		if ss[i].lo < ss[i-1].hi {
			return ss[i-1].at + " and " + ss[i].at
		}
	}
	return ""
}

func drawStyle(t *T) (*jstyle, string) {
	s := &jstyle{r: ref.NewRng(seed(t))}
	k := intn(t, 8, "style")
	s.shuffle, s.spaces, s.extra = k&1 != 0, k&2 != 0, k&4 != 0
	return s, []string{"compact", "shuffled", "spaced", "shuffled spaced", "extra keys", "shuffled extra", "spaced extra", "all"}[k]
}

func (s *jstyle) bytes(v any) []byte {
	var b bytes.Buffer
	s.render(&b, v)
	return b.Bytes()
}

// scratch makes a directory for this case's files.
func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "c15-")
	must(err)
	return d, func() { os.RemoveAll(d) }
}
func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	must(os.WriteFile(p, b, 0o644))
	return p
}

func loadProof(path string) variables.ProofWithPublicInputs {
	return variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(path))
}
func loadVD(path string) variables.VerifierOnlyCircuitData {
	return variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(path))
}

func TestC15_proof(t *testing.T) {
	Section(t, "at least one query round, one opening and one public input in the file", 4000, 60000, bodyC15proof)
}

func bodyC15proof(t *T, h *H) {
	g := c15{ref.NewRng(seed(t))}
	s, style := drawStyle(t)
	p, pis := g.proof()
	dir, rm := scratch()
	defer rm()
	path := put(dir, "p.json", s.bytes(jProof(p, pis)))
	// another proof loaded in between must not disturb the first
	p2, pis2 := g.proof()
	path2 := put(dir, "q.json", s.bytes(jProof(p2, pis2)))
	var a, b, a2 variables.ProofWithPublicInputs
	if e := try(func() { a = loadProof(path); b = loadProof(path2); a2 = loadProof(path) }); e != nil {
		t.Fatalf("well-formed proof file (%s) refused: %v", style, e)
	}
	c := &c15cmp{t: t, what: "proof (" + style + ")"}
	c.proof(&a, p, pis)
	c.proof(&b, p2, pis2)
	c.proof(&a2, p, pis)
	if m := shared([]any{}); m != "" {
		t.Fatalf("HARNESS: %s", m)
	}
	if m := shared(&struct {
		A, B, C variables.ProofWithPublicInputs
	}{a, b, a2}); m != "" {
		t.Fatalf("proof: %s share memory", m)
	}
	nt := len(p.Fri.Queries) > 0 && len(pis) > 0 && (len(p.Openings.Wires) > 0 || len(p.Openings.Constants) > 0)
	h.Case(nt, style, len(p.Fri.Queries), len(pis), len(p.Openings.Wires), len(p.Openings.Constants), len(p.WiresCap), p.Fri.PowWitness)
}

func TestC15_verifierdata(t *testing.T) {
	Section(t, "non-empty cap", 3000, 40000, bodyC15verifierdata)
}

func bodyC15verifierdata(t *T, h *H) {
	g := c15{ref.NewRng(seed(t))}
	s, style := drawStyle(t)
	n := g.n(18)
	if g.r.N(10) == 0 {
		n = 256
	}
	vd, vd2 := &ref.VerifierData{g.fs(n), g.f()}, &ref.VerifierData{g.fs(g.n(18)), g.f()}
	js := func(v *ref.VerifierData) []byte {
		return s.bytes(ob("constants_sigmas_cap", jF(v.ConstantsSigmasCap), "circuit_digest", frS(v.Digest)))
	}
	dir, rm := scratch()
	defer rm()
	p1, p2 := put(dir, "v.json", js(vd)), put(dir, "w.json", js(vd2))
	var a, b variables.VerifierOnlyCircuitData
	if e := try(func() { a = loadVD(p1); b = loadVD(p2) }); e != nil {
		t.Fatalf("well-formed verifier data (%s) refused: %v", style, e)
	}
	c := &c15cmp{t: t, what: "verifier data (" + style + ")"}
	for _, x := range []struct {
		got  *variables.VerifierOnlyCircuitData
		want *ref.VerifierData
	}{{&a, vd}, {&b, vd2}} {
		c.fs("constants_sigmas_cap", x.got.ConstantSigmasCap, x.want.ConstantsSigmasCap)
		c.f("circuit_digest", x.got.CircuitDigest, x.want.Digest)
	}
	if m := shared(&struct {
		A, B variables.VerifierOnlyCircuitData
	}{a, b}); m != "" {
		t.Fatalf("verifier data: %s share memory", m)
	}
	// the same helpers used on their own
	strs := make([]string, n)
	for i := range strs {
		strs[i] = frS(vd.ConstantsSigmasCap[i])
	}
	c.what = "list helpers"
	c.fs("cap", variables.DeserializeMerkleCap(strs), vd.ConstantsSigmasCap)
	c.fs("hashes", variables.StringArrayToHashBN254Array(strs), vd.ConstantsSigmasCap)
	fv := gl.StrArrayToFrontendVariableArray(strs)
	bv := gl.StrArrayToBigIntArray(strs)
	c.num("variables", len(fv), n)
	c.num("big integers", len(bv), n)
	for i := range strs {
		c.f("variables", fv[i], vd.ConstantsSigmasCap[i])
		if bv[i].String() != strs[i] {
			t.Fatalf("big integer %d is %s, stated %s", i, bv[i].String(), strs[i])
		}
	}
	us := g.us(g.n(20))
	c.us("elements", gl.Uint64ArrayToVariableArray(us), us)
	es := g.es(g.n(20) + 1)
	raw := make([][]uint64, len(es))
	for i := range es {
		raw[i] = []uint64{es[i][0], es[i][1]}
	}
	c.es("extension elements", gl.Uint64ArrayToQuadraticExtensionArray(raw), es)
	c.es("extension element", []gl.QuadraticExtensionVariable{gl.Uint64ArrayToQuadraticExtension(raw[0])}, es[:1])
	h.Case(n > 0, style, n, frS(vd.Digest))
}

// ---- circuit descriptions

type c15common struct {
	NumWires, NumRouted, CfgConstants, Security, NumChallenges, MaxQ uint64
	BaseArith, ZK                                                    bool
	Fri, Fri2                                                        [4]uint64 // rate, cap, pow, queries: of the config, of the params
	DegreeBits                                                       uint64
	Arities                                                          []uint64
	Gates                                                            []string
	Sel                                                              []uint64
	Start, End                                                       []uint64
	Q, NGC, NC, NPI, NPP                                             uint64
	KIs                                                              []uint64
	Hiding                                                           bool
}

func (g c15) common() *c15common {
	c := &c15common{NumWires: g.u(), NumRouted: g.u(), CfgConstants: g.u(), Security: g.u(), NumChallenges: g.u(), MaxQ: g.u(),
		BaseArith: g.r.N(2) == 0, ZK: g.r.N(2) == 0, Fri: [4]uint64{g.u(), g.u(), g.u(), g.u()}, Fri2: [4]uint64{g.u(), g.u(), g.u(), g.u()},
		DegreeBits: g.u(), Arities: g.us(g.n(9)), Sel: g.us(g.n(20)), Q: g.u(), NGC: g.u(), NC: g.u(), NPI: g.u(), NPP: g.u(), KIs: g.us(g.n(100))}
	for i, n := 0, g.n(15); i < n; i++ {
		var s string
		switch g.r.N(4) {
		case 0:
			s = fmt.Sprintf("ArithmeticGate { num_ops: %d }", g.r.N(100))
		case 1:
			s = fmt.Sprintf("CosetInterpolationGate { subgroup_bits: 4, degree: 6, barycentric_weights: [%d, 1], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", g.u())
		case 2:
			s = "LookupTableGate {\t\"quoted\" \\ é ∀ </script>&}" // any text survives, escapes included
		default:
			s = "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
		}
		c.Gates = append(c.Gates, s)
	}
	for i, n := 0, g.n(6); i < n; i++ {
		c.Start = append(c.Start, g.u())
		c.End = append(c.End, g.u())
	}
	return c
}

func (c *c15common) js() *jobj {
	fc := func(x [4]uint64, ar []any) *jobj {
		return ob("rate_bits", x[0], "cap_height", x[1], "proof_of_work_bits", x[2],
			"reduction_strategy", ob("ConstantArityBits", ar), "num_query_rounds", x[3])
	}
	gr := []any{}
	for i := range c.Start {
		gr = append(gr, ob("start", c.Start[i], "end", c.End[i]))
	}
	return ob("config", ob("num_wires", c.NumWires, "num_routed_wires", c.NumRouted, "num_constants", c.CfgConstants,
		"use_base_arithmetic_gate", c.BaseArith, "security_bits", c.Security, "num_challenges", c.NumChallenges, "zero_knowledge", c.ZK,
		"max_quotient_degree_factor", c.MaxQ, "fri_config", fc(c.Fri, []any{uint64(4), uint64(5)})),
		"fri_params", ob("config", fc(c.Fri2, []any{uint64(3), uint64(9)}), "hiding", c.Hiding, "degree_bits", c.DegreeBits,
			"reduction_arity_bits", jU(c.Arities)),
		"gates", jS(c.Gates), "selectors_info", ob("selector_indices", jU(c.Sel), "groups", gr),
		"quotient_degree_factor", c.Q, "num_gate_constraints", c.NGC, "num_constants", c.NC, "num_public_inputs", c.NPI,
		"k_is", jU(c.KIs), "num_partial_products", c.NPP)
}

func (c *c15common) compare(t *T, what string, d *types.CommonCircuitData) {
	eq := func(at string, got, want any) {
		if fmt.Sprintf("%v", got) != fmt.Sprintf("%v", want) { // nil and empty lists alike
			t.Fatalf("%s: %s is %v, file states %v", what, at, got, want)
		}
	}
	fc := func(at string, got types.FriConfig, want [4]uint64) {
		eq(at, [4]uint64{got.RateBits, got.CapHeight, got.ProofOfWorkBits, got.NumQueryRounds}, want)
	}
	k := d.Config
	eq("num_wires", k.NumWires, c.NumWires)
	eq("num_routed_wires", k.NumRoutedWires, c.NumRouted)
	eq("config.num_constants", k.NumConstants, c.CfgConstants)
	eq("use_base_arithmetic_gate", k.UseBaseArithmeticGate, c.BaseArith)
	eq("security_bits", k.SecurityBits, c.Security)
	eq("num_challenges", k.NumChallenges, c.NumChallenges)
	eq("zero_knowledge", k.ZeroKnowledge, c.ZK)
	eq("max_quotient_degree_factor", k.MaxQuotientDegreeFactor, c.MaxQ)
	fc("config.fri_config", k.FriConfig, c.Fri)
	fc("fri_params.config", d.FriParams.Config, c.Fri2)
	eq("fri_params.degree_bits", d.FriParams.DegreeBits, c.DegreeBits)
	eq("degree_bits", d.DegreeBits, c.DegreeBits)
	eq("hiding", d.FriParams.Hiding, c.Hiding)
	eq("reduction_arity_bits", d.FriParams.ReductionArityBits, c.Arities)
	eq("number of gates", len(d.GateIds), len(c.Gates))
	for i := range c.Gates {
		eq(fmt.Sprintf("gates[%d]", i), d.GateIds[i], c.Gates[i])
	}
	eq("selectors_info", d.SelectorsInfo, *gates.NewSelectorsInfo(c.Sel, c.Start, c.End))
	eq("quotient_degree_factor", d.QuotientDegreeFactor, c.Q)
	eq("num_gate_constraints", d.NumGateConstraints, c.NGC)
	eq("num_constants", d.NumConstants, c.NC)
	eq("num_public_inputs", d.NumPublicInputs, c.NPI)
	eq("k_is", d.KIs, c.KIs)
	eq("num_partial_products", d.NumPartialProducts, c.NPP)
}

func TestC15_common(t *testing.T) {
	Section(t, "at least one gate, selector group and coset shift", 4000, 60000, bodyC15common)
}

func bodyC15common(t *T, h *H) {
	g := c15{ref.NewRng(seed(t))}
	s, style := drawStyle(t)
	c, c2 := g.common(), g.common()
	dir, rm := scratch()
	defer rm()
	p1, p2 := put(dir, "c.json", s.bytes(c.js())), put(dir, "d.json", s.bytes(c2.js()))
	var a, b types.CommonCircuitData
	if e := try(func() { a = types.ReadCommonCircuitData(p1); b = types.ReadCommonCircuitData(p2) }); e != nil {
		t.Fatalf("well-formed circuit description (%s) refused: %v", style, e)
	}
	c.compare(t, style, &a)
	c2.compare(t, style, &b)
	if m := shared(&struct{ A, B types.CommonCircuitData }{a, b}); m != "" {
		t.Fatalf("circuit description: %s share memory", m)
	}
	h.Case(len(c.Gates) > 0 && len(c.Start) > 0 && len(c.KIs) > 0, style, *c)
}

// ---- refusals

func TestC15_refused(t *testing.T) {
	Section(t, "a file that was well formed before one defect was put into it", 4000, 60000, bodyC15refused)
}

// leafPaths lists the scalar positions of a JSON tree.
func leafPaths(v any, set func(any), f func(v any, set func(any))) {
	switch x := v.(type) {
	case *jobj:
		for i := range x.vals {
			i := i
			if x.keys[i] == "reduction_strategy" { // not part of what is loaded
				continue
			}
			leafPaths(x.vals[i], func(n any) { x.vals[i] = n }, f)
		}
	case []any:
		for i := range x {
			i := i
			leafPaths(x[i], func(n any) { x[i] = n }, f)
		}
	}
	f(v, set)
}

// unusable reports whether some value in v cannot be used as a circuit value.
func unusable(v any) bool {
	bad := false
	var walk func(x reflect.Value)
	walk = func(x reflect.Value) {
		switch x.Kind() {
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i))
			}
		case reflect.Interface:
			var e fr.Element
			if x.IsNil() {
				bad = true
			} else if _, err := e.SetInterface(x.Interface()); err != nil {
				bad = true
			}
		}
	}
	walk(reflect.ValueOf(v))
	return bad
}

func bodyC15refused(t *T, h *H) {
	g := c15{ref.NewRng(seed(t))}
	s, _ := drawStyle(t)
	s.extra = false
	kind := intn(t, 3, "file")
	var tree *jobj
	switch kind {
	case 0:
		p, pis := g.proof()
		tree = jProof(p, pis)
	case 1:
		tree = ob("constants_sigmas_cap", jF(g.fs(g.n(5))), "circuit_digest", frS(g.f()))
	default:
		c := g.common()
		tree = c.js()
	}
	name := []string{"proof", "verifier data", "circuit description"}[kind]
	var last any
	load := func(p string) any {
		return try(func() {
			switch kind {
			case 0:
				last = loadProof(p)
			case 1:
				last = loadVD(p)
			default:
				last = types.ReadCommonCircuitData(p)
			}
		})
	}
	dir, rm := scratch()
	defer rm()
	good := s.bytes(tree)
	if e := load(put(dir, "good.json", good)); e != nil {
		t.Fatalf("well-formed %s refused: %v", name, e)
	}
	what := ""
	path := filepath.Join(dir, "bad.json")
	trimmed := bytes.TrimSpace(good)
	k := intn(t, 10, "defect")
	switch k {
	case 0:
		what, path = "missing file", filepath.Join(dir, "absent.json")
	case 1:
		what, path = "a directory", dir
	case 2:
		what = "empty file"
		put(dir, "bad.json", bytes.Repeat([]byte(" "), g.r.N(3)))
	case 3:
		n := uni(t, 1, len(trimmed)-1, "cut")
		what = fmt.Sprintf("truncated after %d of %d bytes", n, len(trimmed))
		put(dir, "bad.json", trimmed[:n])
	case 4:
		what = "trailing text"
		put(dir, "bad.json", append(append([]byte{}, trimmed...), pick(t, []string{"}", "{}", "x", "1", ","}, "tail")...))
	case 5: // a structural character dropped or replaced outside of strings
		var pos []int
		in := false
		for i, b := range trimmed {
			if b == '"' && (i == 0 || trimmed[i-1] != '\\') {
				in = !in
			}
			if !in && strings.IndexByte("{}[]:", b) >= 0 {
				pos = append(pos, i)
			}
		}
		i := pick(t, pos, "at")
		what = fmt.Sprintf("%q at byte %d replaced", trimmed[i], i)
		bad := append([]byte{}, trimmed...)
		bad[i] = pick(t, []byte{'!', ' ', '"', 'x', ';', '('}, "by")
		if json.Valid(bad) {
			h.Case(false, "still valid")
			return
		}
		put(dir, "bad.json", bad)
	case 6: // a value of the wrong type
		type pos struct {
			v   any
			set func(any)
		}
		var ps []pos
		leafPaths(tree, func(any) {}, func(v any, set func(any)) {
			if v != any(tree) {
				ps = append(ps, pos{v, set})
			}
		})
		at := pick(t, ps, "at")
		var alt []any
		switch at.v.(type) {
		case uint64:
			alt = []any{"7", true, json.RawMessage("-1"), json.RawMessage("1.5"), json.RawMessage("18446744073709551616"), ob("a", uint64(1)), []any{uint64(1)}}
		case string:
			alt = []any{uint64(7), true, ob("a", uint64(1)), []any{uint64(1)}}
		case bool:
			alt = []any{uint64(1), "true", []any{}}
		case []any:
			alt = []any{uint64(1), "x", true, ob("a", uint64(1))}
		default:
			alt = []any{uint64(1), "x", true, []any{}}
		}
		n := pick(t, alt, "alt")
		what = fmt.Sprintf("a %T where a %T belongs", n, at.v)
		at.set(n)
		put(dir, "bad.json", s.bytes(tree))
	case 7:
		if kind != 2 {
			what = "not an object"
			put(dir, "bad.json", []byte(pick(t, []string{"[]", "1", "\"x\"", "true", "[{}]"}, "doc")))
			break
		}
		what = "hiding enabled"
		c := g.common()
		c.Hiding = true
		put(dir, "bad.json", s.bytes(c.js()))
	case 9: // a digest that is not a number: refused when loading, or not usable as a value afterwards
		var sets []func(any)
		leafPaths(tree, func(any) {}, func(v any, set func(any)) {
			if _, ok := v.(string); ok {
				sets = append(sets, set)
			}
		})
		if kind == 2 || len(sets) == 0 {
			h.Case(false, "no digest")
			return
		}
		pick(t, sets, "at")(pick(t, []string{"", "abc", "12a", " 12", "0x1f", "1.5", "1_0", "--3"}, "digest"))
		what = "digest that is not a number"
		put(dir, "bad.json", s.bytes(tree))
	case 8:
		what = "not JSON"
		put(dir, "bad.json", []byte(pick(t, []string{"PK\x03\x04", "\x00", "%PDF", "<xml/>", "NaN", "undefined", "{'a':1}", "\xef\xbb\xbf{}"}, "doc")))
	}
	if e := load(path); e == nil && (k != 9 || !unusable(last)) {
		t.Fatalf("%s with %s was loaded", name, what)
	}
	cls := what
	if i := strings.IndexByte(cls, ' '); i > 0 && (strings.HasPrefix(what, "truncated") || strings.HasPrefix(what, "\"") || strings.HasPrefix(what, "'")) {
		cls = cls[:i]
		if cls != "truncated" {
			cls = "structural character"
		}
	}
	if strings.HasPrefix(cls, "a ") && cls != "a directory" {
		cls = "wrong type"
	}
	h.Case(true, name+": "+cls, what, len(good))
}

// ---- end to end: a proof written to files, loaded and verified

func TestC15_endtoend(t *testing.T) {
	Section(t, "a complete proof went through the three files into the verifier circuit", 60, 1500, bodyC15endtoend)
}

func bodyC15endtoend(t *T, h *H) {
	cfg := drawConfig(t, false)
	ci, res := buildProof(t, cfg, prove.Cheat{})
	c := ci.C
	dir, rm := scratch()
	defer rm()
	pp := put(dir, "proof.json", ref.ProofJSON(res.Proof, res.PIs))
	vp := put(dir, "vd.json", ref.VDJSON(res.VD))
	cp := put(dir, "common.json", ref.CommonJSON(c))
	accept(t, eng.Native, "proof loaded from its files, "+descCfg(c, len(res.PIs)), func(api frontend.API) {
		pwpi := loadProof(pp)
		verifier.NewVerifierChip(api, types.ReadCommonCircuitData(cp)).Verify(pwpi.Proof, pwpi.PublicInputs, loadVD(vp))
	})
	h.Case(true, "accepted", descCfg(c, len(res.PIs)))
}
