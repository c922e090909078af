package ref

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type obj = map[string]any

func js(x any) string { b, _ := json.Marshal(x); return string(b) }
func fstrs(x []fr.Element) []string {
	o := make([]string, len(x))
	for i := range x {
		o[i] = x[i].BigInt(new(big.Int)).String()
	}
	return o
}
func epairs(x []E) [][2]uint64 {
	o := make([][2]uint64, len(x))
	for i := range x {
		o[i] = x[i]
	}
	return o
}
func ncaps(x [][]fr.Element) [][]string {
	o := make([][]string, len(x))
	for i := range x {
		o[i] = fstrs(x[i])
	}
	return o
}

// ProofJSON writes a proof in Plonky2's serde format.
func ProofJSON(p *Proof, pis []uint64) []byte {
	if pis == nil {
		pis = []uint64{}
	}
	o := &p.Openings
	var rounds = []any{}
	for _, q := range p.Fri.Queries {
		ep := []any{}
		for _, i := range q.Initial {
			leaf := i.Leaf
			if leaf == nil {
				leaf = []uint64{}
			}
			ep = append(ep, []any{leaf, obj{"siblings": fstrs(i.Siblings)}})
		}
		st := []any{}
		for _, s := range q.Steps {
			st = append(st, obj{"evals": epairs(s.Evals), "merkle_proof": obj{"siblings": fstrs(s.Siblings)}})
		}
		rounds = append(rounds, obj{"initial_trees_proof": obj{"evals_proofs": ep}, "steps": st})
	}
	b, err := json.Marshal(obj{
		"proof": obj{
			"wires_cap": fstrs(p.WiresCap), "plonk_zs_partial_products_cap": fstrs(p.ZsCap), "quotient_polys_cap": fstrs(p.QuotientCap),
			"openings": obj{
				"constants": epairs(o.Constants), "plonk_sigmas": epairs(o.Sigmas), "wires": epairs(o.Wires),
				"plonk_zs": epairs(o.Zs), "plonk_zs_next": epairs(o.ZsNext), "partial_products": epairs(o.PartialProducts),
				"quotient_polys": epairs(o.Quotient),
			},
			"opening_proof": obj{
				"commit_phase_merkle_caps": ncaps(p.Fri.CommitCaps), "query_round_proofs": rounds,
				"final_poly": obj{"coeffs": epairs(p.Fri.FinalPoly)}, "pow_witness": p.Fri.PowWitness,
			},
		},
		"public_inputs": pis,
	})
	if err != nil {
		panic(err)
	}
	return b
}

func VDJSON(v *VerifierData) []byte {
	b, _ := json.Marshal(obj{"constants_sigmas_cap": fstrs(v.ConstantsSigmasCap), "circuit_digest": v.Digest.BigInt(new(big.Int)).String()})
	return b
}

// CommonJSON writes a circuit description in Plonky2's serde format.
func CommonJSON(c *Common) []byte {
	fc := obj{"rate_bits": c.RateBits, "cap_height": c.CapHeight, "proof_of_work_bits": c.PowBits,
		"reduction_strategy": obj{"ConstantArityBits": []int{4, 5}}, "num_query_rounds": c.NumQueries}
	ids := []string{}
	for _, g := range c.Gates {
		ids = append(ids, g.ID())
	}
	gr := []any{}
	for _, g := range c.Groups {
		gr = append(gr, obj{"start": g[0], "end": g[1]})
	}
	ar := c.Arities
	if ar == nil {
		ar = []int{}
	}
	b, _ := json.Marshal(obj{
		"config": obj{"num_wires": c.NumWires, "num_routed_wires": c.NumRouted, "num_constants": c.NumConstants - len(c.Groups),
			"use_base_arithmetic_gate": true, "security_bits": 100, "num_challenges": c.NumChallenges, "zero_knowledge": false,
			"max_quotient_degree_factor": c.Q, "fri_config": fc},
		"fri_params":             obj{"config": fc, "hiding": false, "degree_bits": c.DegreeBits, "reduction_arity_bits": ar},
		"gates":                  ids,
		"selectors_info":         obj{"selector_indices": c.SelectorIndices, "groups": gr},
		"quotient_degree_factor": c.Q, "num_gate_constraints": c.NumGateConstraints, "num_constants": c.NumConstants,
		"num_public_inputs": c.NumPublicInputs, "k_is": c.KIs, "num_partial_products": c.NumPartialProducts,
	})
	return b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func rd(path string, v any) {
	b, err := os.ReadFile(path)
	must(err)
	must(json.Unmarshal(b, v))
}
func pf(s []string) []fr.Element {
	o := make([]fr.Element, len(s))
	for i := range s {
		b, ok := new(big.Int).SetString(s[i], 10)
		if !ok {
			panic(s[i])
		}
		o[i].SetBigInt(b)
	}
	return o
}
func pe(x [][2]uint64) []E {
	o := make([]E, len(x))
	for i := range x {
		o[i] = x[i]
	}
	return o
}

// Load reads the three files of a testdata directory with a parser independent of the repository's.
func Load(dir string) (*Common, *VerifierData, *Proof, []uint64) {
	var cd struct {
		Config struct {
			NumWires      int `json:"num_wires"`
			NumRouted     int `json:"num_routed_wires"`
			NumChallenges int `json:"num_challenges"`
		}
		FriParams struct {
			Config struct {
				Rate int `json:"rate_bits"`
				Cap  int `json:"cap_height"`
				Pow  int `json:"proof_of_work_bits"`
				NQ   int `json:"num_query_rounds"`
			}
			Deg int   `json:"degree_bits"`
			Ar  []int `json:"reduction_arity_bits"`
		} `json:"fri_params"`
		Gates []string
		Sel   struct {
			Idx    []int `json:"selector_indices"`
			Groups []struct{ Start, End int }
		} `json:"selectors_info"`
		Q   int      `json:"quotient_degree_factor"`
		NGC int      `json:"num_gate_constraints"`
		NC  int      `json:"num_constants"`
		NPI int      `json:"num_public_inputs"`
		KIs []uint64 `json:"k_is"`
		NPP int      `json:"num_partial_products"`
	}
	rd(dir+"/common_circuit_data.json", &cd)
	c := &Common{NumWires: cd.Config.NumWires, NumRouted: cd.Config.NumRouted, NumConstants: cd.NC, NumChallenges: cd.Config.NumChallenges,
		DegreeBits: cd.FriParams.Deg, RateBits: cd.FriParams.Config.Rate, CapHeight: cd.FriParams.Config.Cap, PowBits: cd.FriParams.Config.Pow,
		NumQueries: cd.FriParams.Config.NQ, Arities: cd.FriParams.Ar, SelectorIndices: cd.Sel.Idx, Q: cd.Q, NumGateConstraints: cd.NGC,
		NumPublicInputs: cd.NPI, KIs: cd.KIs, NumPartialProducts: cd.NPP}
	for _, g := range cd.Sel.Groups {
		c.Groups = append(c.Groups, [2]int{g.Start, g.End})
	}
	for _, id := range cd.Gates {
		c.Gates = append(c.Gates, ParseGate(id))
	}
	var vr struct {
		Cap    []string `json:"constants_sigmas_cap"`
		Digest string   `json:"circuit_digest"`
	}
	rd(dir+"/verifier_only_circuit_data.json", &vr)
	vd := &VerifierData{pf(vr.Cap), pf([]string{vr.Digest})[0]}
	var pr struct {
		Proof struct {
			W  []string `json:"wires_cap"`
			Z  []string `json:"plonk_zs_partial_products_cap"`
			Q  []string `json:"quotient_polys_cap"`
			Op struct {
				C  [][2]uint64 `json:"constants"`
				S  [][2]uint64 `json:"plonk_sigmas"`
				W  [][2]uint64 `json:"wires"`
				Z  [][2]uint64 `json:"plonk_zs"`
				ZN [][2]uint64 `json:"plonk_zs_next"`
				PP [][2]uint64 `json:"partial_products"`
				Q  [][2]uint64 `json:"quotient_polys"`
			} `json:"openings"`
			Fri struct {
				Caps [][]string `json:"commit_phase_merkle_caps"`
				QR   []struct {
					Init struct {
						EP [][2]json.RawMessage `json:"evals_proofs"`
					} `json:"initial_trees_proof"`
					Steps []struct {
						Evals [][2]uint64
						MP    struct{ Siblings []string } `json:"merkle_proof"`
					}
				} `json:"query_round_proofs"`
				Final struct{ Coeffs [][2]uint64 } `json:"final_poly"`
				Pow   uint64                       `json:"pow_witness"`
			} `json:"opening_proof"`
		}
		PI []uint64 `json:"public_inputs"`
	}
	rd(dir+"/proof_with_public_inputs.json", &pr)
	op := pr.Proof.Op
	p := &Proof{WiresCap: pf(pr.Proof.W), ZsCap: pf(pr.Proof.Z), QuotientCap: pf(pr.Proof.Q),
		Openings: Openings{pe(op.C), pe(op.S), pe(op.W), pe(op.Z), pe(op.ZN), pe(op.PP), pe(op.Q)}}
	for _, cap := range pr.Proof.Fri.Caps {
		p.Fri.CommitCaps = append(p.Fri.CommitCaps, pf(cap))
	}
	for _, q := range pr.Proof.Fri.QR {
		var n Query
		for _, ep := range q.Init.EP {
			var leaf []uint64
			var mp struct{ Siblings []string }
			must(json.Unmarshal(ep[0], &leaf))
			must(json.Unmarshal(ep[1], &mp))
			n.Initial = append(n.Initial, InitialOpening{leaf, pf(mp.Siblings)})
		}
		for _, s := range q.Steps {
			n.Steps = append(n.Steps, Step{pe(s.Evals), pf(s.MP.Siblings)})
		}
		p.Fri.Queries = append(p.Fri.Queries, n)
	}
	p.Fri.FinalPoly = pe(pr.Proof.Fri.Final.Coeffs)
	p.Fri.PowWitness = pr.Proof.Fri.Pow
	return c, vd, p, pr.PI
}

// ParseGate inverts Gate.ID (used only for the repository's two sample circuits).
func ParseGate(id string) Gate {
	name := id
	for i, r := range id {
		if r == ' ' || r == '(' {
			name = id[:i]
			break
		}
	}
	var nums []int
	for _, tok := range strings.FieldsFunc(strings.SplitN(id, "barycentric", 2)[0], func(r rune) bool { return r < '0' || r > '9' }) {
		var n int
		fmt.Sscan(tok, &n)
		nums = append(nums, n)
	}
	var g Gate
	switch name {
	case "NoopGate":
		g = Noop{}
	case "PublicInputGate":
		g = PublicInput{}
	case "PoseidonMdsGate":
		g = PoseidonMds{}
	case "PoseidonGate":
		g = PoseidonG{}
	case "ConstantGate":
		g = Constant{nums[0]}
	case "BaseSumGate":
		g = BaseSum{nums[0], nums[1]}
	case "ReducingExtensionGate":
		g = ReducingExtension{nums[0]}
	case "ReducingGate":
		g = Reducing{nums[0]}
	case "ArithmeticExtensionGate":
		g = ArithmeticExtension{nums[0]}
	case "ArithmeticGate":
		g = Arithmetic{nums[0]}
	case "MulExtensionGate":
		g = MulExtension{nums[0]}
	case "ExponentiationGate":
		g = Exponentiation{nums[0]}
	case "RandomAccessGate":
		g = RandomAccess{nums[0], nums[1], nums[2]}
	case "CosetInterpolationGate":
		g = CosetInterpolation{nums[0], nums[1]}
	}
	if _, ok := g.(CosetInterpolation); !ok && (g == nil || g.ID() != id) { // plonky2 prints weights unreduced
		panic("ParseGate: " + id)
	}
	return g
}
