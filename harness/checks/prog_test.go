package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	glf "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"

	"verifharness/ref"
)

// A program is a random DAG of the library's operations. The r* pools hold the values direct
// evaluation (the reference) gives; an ex holds the variables of one execution. Operands are drawn
// from the pools, so they are shared and reused freely, and list operands are the same Go slices.
type program struct {
	rg   []uint64
	re   []ref.E
	ra   []ref.A
	rb   []fr.Element
	rbit []uint64
	rn   []uint64 // unreduced values, modulo p
	nbit []int    // bound on their size in bits
	rlg  [][]int  // lists: indices into rg / re
	rle  [][]int

	inG, inE, inB, inBit int
	ops                  []func(*ex)
	desc                 []string
	shared               bool
	used                 map[string]int
}

type ex struct {
	api frontend.API
	c   *gl.Chip
	g   []gl.Variable
	e   []gl.QuadraticExtensionVariable
	a   []gl.QuadraticExtensionAlgebraVariable
	b   []frontend.Variable
	bit []frontend.Variable
	n   []gl.Variable
	lg  [][]gl.Variable
	le  [][]gl.QuadraticExtensionVariable
	arG []gl.Variable
	arE []gl.QuadraticExtensionVariable
}

func (p *program) use(kind string, i int) int {
	k := fmt.Sprint(kind, i)
	p.used[k]++
	if p.used[k] > 1 {
		p.shared = true
	}
	return i
}
func (p *program) G(t *T) int { return p.use("g", intn(t, len(p.rg), "g")) }
func (p *program) E(t *T) int { return p.use("e", intn(t, len(p.re), "e")) }
func (p *program) A(t *T) int { return p.use("a", intn(t, len(p.ra), "a")) }
func (p *program) B(t *T) int { return p.use("b", intn(t, len(p.rb), "b")) }

func (p *program) add(desc string, f func(*ex)) {
	p.desc = append(p.desc, desc)
	p.ops = append(p.ops, f)
}
func (p *program) outG(v uint64, desc string, f func(*ex) gl.Variable) {
	p.rg = append(p.rg, v)
	p.add(desc, func(x *ex) { x.g = append(x.g, f(x)) })
}
func (p *program) outE(v ref.E, desc string, f func(*ex) gl.QuadraticExtensionVariable) {
	p.re = append(p.re, v)
	p.add(desc, func(x *ex) { x.e = append(x.e, f(x)) })
}
func (p *program) outA(v ref.A, desc string, f func(*ex) gl.QuadraticExtensionAlgebraVariable) {
	p.ra = append(p.ra, v)
	p.add(desc, func(x *ex) { x.a = append(x.a, f(x)) })
}
func (p *program) outN(v uint64, bits int, desc string, f func(*ex) gl.Variable) {
	p.rn, p.nbit = append(p.rn, v), append(p.nbit, bits)
	p.add(desc, func(x *ex) { x.n = append(x.n, f(x)) })
}
func (p *program) outB(v fr.Element, desc string, f func(*ex) frontend.Variable) {
	p.rb = append(p.rb, v)
	p.add(desc, func(x *ex) { x.b = append(x.b, f(x)) })
}
func (p *program) outBit(v uint64, desc string, f func(*ex) frontend.Variable) {
	p.rbit = append(p.rbit, v)
	p.add(desc, func(x *ex) { x.bit = append(x.bit, f(x)) })
}

func (p *program) gs(idx []int) []uint64 {
	o := make([]uint64, len(idx))
	for i, j := range idx {
		o[i] = p.rg[j]
	}
	return o
}
func (p *program) es(idx []int) []ref.E {
	o := make([]ref.E, len(idx))
	for i, j := range idx {
		o[i] = p.re[j]
	}
	return o
}

func drawProgram(t *T, n int, heavy bool) *program {
	p := &program{used: map[string]int{}}
	p.inG, p.inE, p.inB, p.inBit = uni(t, 2, 4, "inG"), uni(t, 1, 3, "inE"), 1, 2
	for i := 0; i < p.inG; i++ {
		p.rg = append(p.rg, felt(t, "in"))
	}
	for i := 0; i < p.inE; i++ {
		p.re = append(p.re, ext(t, "in"))
	}
	p.rb = append(p.rb, randF(ref.NewRng(seed(t))))
	for i := 0; i < p.inBit; i++ {
		p.rbit = append(p.rbit, uint64(intn(t, 2, "bit")))
	}
	// constants
	k := felt(t, "const")
	p.outG(k, fmt.Sprintf("const %d", k), func(x *ex) gl.Variable { return gl.NewVariable(k) })
	ke := ref.E{felt(t, "const"), 0}
	p.outE(ke, fmt.Sprintf("const %v", ke), func(x *ex) gl.QuadraticExtensionVariable {
		return gl.NewVariable(ke[0]).ToQuadraticExtension()
	})
	a0, a1 := p.E(t), p.E(t)
	p.outA(ref.A{p.re[a0], p.re[a1]}, fmt.Sprintf("alg(e%d,e%d)", a0, a1), func(x *ex) gl.QuadraticExtensionAlgebraVariable {
		return gl.QuadraticExtensionAlgebraVariable{x.e[a0], x.e[a1]}
	})
	for i := 0; i < 2; i++ {
		var le []int
		for j := uni(t, 1, 5, "len"); j > 0; j-- {
			le = append(le, p.E(t))
		}
		p.rle = append(p.rle, le)
		p.add(fmt.Sprintf("list e%v", le), func(x *ex) {
			n := len(x.arE) // the lists lie next to each other in one array
			for _, j := range le {
				x.arE = append(x.arE, x.e[j])
			}
			x.le = append(x.le, x.arE[n:])
		})
		var lg []int
		for j := uni(t, 1, 13, "len"); j > 0; j-- {
			lg = append(lg, p.G(t))
		}
		p.rlg = append(p.rlg, lg)
		p.add(fmt.Sprintf("list g%v", lg), func(x *ex) {
			n := len(x.arG)
			for _, j := range lg {
				x.arG = append(x.arG, x.g[j])
			}
			x.lg = append(x.lg, x.arG[n:])
		})
	}
	kinds := []string{"Add", "Sub", "Mul", "MulAdd", "Inverse", "AddNR", "SubNR", "MulNR", "MulAddNR", "AddN", "Reduce", "ReduceBits",
		"EAdd", "ESub", "EMul", "EMulAdd", "ESubMul", "EScalar", "EInverse", "EDiv", "EExp", "EPowers", "EInner", "EZero", "ELookup", "ELookup2",
		"ENR", "EMulNR", "ESubNR", "EMulAddNR", "AAdd", "ASub", "AMul", "AScalar", "AInterp", "BHash", "BTwo", "BPoseidon", "BVec", "Limb", "Gate", "Gate"}
	if heavy {
		kinds = []string{"GHash", "Challenger", "GPoseidon", "Add", "MulAdd", "EMul", "Reduce", "BHash"}
	}
	for i := 0; i < n; i++ {
		p.step(t, pick(t, kinds, "op"))
	}
	return p
}

func (p *program) step(t *T, op string) {
	f := fmt.Sprintf
	bin := func(v func(a, b uint64) uint64, do func(x *ex, a, b gl.Variable) gl.Variable) {
		a, b := p.G(t), p.G(t)
		p.outG(v(p.rg[a], p.rg[b]), f("%s(g%d,g%d)", op, a, b), func(x *ex) gl.Variable { return do(x, x.g[a], x.g[b]) })
	}
	ebin := func(v func(a, b ref.E) ref.E, do func(x *ex, a, b gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable) {
		a, b := p.E(t), p.E(t)
		p.outE(v(p.re[a], p.re[b]), f("%s(e%d,e%d)", op, a, b), func(x *ex) gl.QuadraticExtensionVariable { return do(x, x.e[a], x.e[b]) })
	}
	abin := func(v func(a, b ref.A) ref.A, do func(x *ex, a, b gl.QuadraticExtensionAlgebraVariable) gl.QuadraticExtensionAlgebraVariable) {
		a, b := p.A(t), p.A(t)
		p.outA(v(p.ra[a], p.ra[b]), f("%s(a%d,a%d)", op, a, b), func(x *ex) gl.QuadraticExtensionAlgebraVariable { return do(x, x.a[a], x.a[b]) })
	}
	type gv = gl.Variable
	type ev = gl.QuadraticExtensionVariable
	type av = gl.QuadraticExtensionAlgebraVariable
	switch op {
	case "Add":
		bin(ref.Add, func(x *ex, a, b gv) gv { return x.c.Add(a, b) })
	case "Sub":
		bin(ref.Sub, func(x *ex, a, b gv) gv { return x.c.Sub(a, b) })
	case "Mul":
		bin(ref.Mul, func(x *ex, a, b gv) gv { return x.c.Mul(a, b) })
	case "MulAdd":
		a, b, c := p.G(t), p.G(t), p.G(t)
		p.outG(ref.Add(ref.Mul(p.rg[a], p.rg[b]), p.rg[c]), f("MulAdd(g%d,g%d,g%d)", a, b, c), func(x *ex) gv { return x.c.MulAdd(x.g[a], x.g[b], x.g[c]) })
	case "Inverse":
		a := p.G(t)
		if p.rg[a] == 0 {
			return
		}
		p.outG(ref.Inv(p.rg[a]), f("Inverse(g%d)", a), func(x *ex) gv { v, _ := x.c.Inverse(x.g[a]); return v })
	case "AddNR":
		a, b := p.G(t), p.G(t)
		p.outN(ref.Add(p.rg[a], p.rg[b]), 65, f("AddNR(g%d,g%d)", a, b), func(x *ex) gv { return x.c.AddNoReduce(x.g[a], x.g[b]) })
	case "SubNR":
		a, b := p.G(t), p.G(t)
		p.outN(ref.Sub(p.rg[a], p.rg[b]), 129, f("SubNR(g%d,g%d)", a, b), func(x *ex) gv { return x.c.SubNoReduce(x.g[a], x.g[b]) })
	case "MulNR":
		a, b := p.G(t), p.G(t)
		p.outN(ref.Mul(p.rg[a], p.rg[b]), 128, f("MulNR(g%d,g%d)", a, b), func(x *ex) gv { return x.c.MulNoReduce(x.g[a], x.g[b]) })
	case "MulAddNR":
		a, b, c := p.G(t), p.G(t), p.G(t)
		v, bits := p.rg[c], 129
		useN := len(p.rn) > 0 && intn(t, 2, "n") == 1
		if useN {
			c = p.use("n", intn(t, len(p.rn), "n"))
			v, bits = p.rn[c], p.nbit[c]+2
			if bits < 130 {
				bits = 130
			}
			if bits > 190 {
				return
			}
		}
		p.outN(ref.Add(ref.Mul(p.rg[a], p.rg[b]), v), bits, f("MulAddNR(g%d,g%d,%v%d)", a, b, useN, c), func(x *ex) gv {
			if useN {
				return x.c.MulAddNoReduce(x.g[a], x.g[b], x.n[c])
			}
			return x.c.MulAddNoReduce(x.g[a], x.g[b], x.g[c])
		})
	case "AddN":
		if len(p.rn) == 0 {
			return
		}
		a, b := p.use("n", intn(t, len(p.rn), "n")), p.use("n", intn(t, len(p.rn), "n"))
		bits := p.nbit[a]
		if p.nbit[b] > bits {
			bits = p.nbit[b]
		}
		if bits++; bits > 190 {
			return
		}
		p.outN(ref.Add(p.rn[a], p.rn[b]), bits, f("AddNR(n%d,n%d)", a, b), func(x *ex) gv { return x.c.AddNoReduce(x.n[a], x.n[b]) })
	case "Reduce", "ReduceBits":
		if len(p.rn) == 0 {
			return
		}
		a := p.use("n", intn(t, len(p.rn), "n"))
		bits := uint64(p.nbit[a]-63) + uint64(intn(t, 10, "slack"))
		bits = (bits + 15) / 16 * 16 // the commitment-based range checker takes no other widths
		if op == "Reduce" {
			p.outG(p.rn[a], f("Reduce(n%d)", a), func(x *ex) gv { return x.c.Reduce(x.n[a]) })
		} else {
			p.outG(p.rn[a], f("ReduceWithMaxBits(n%d,%d)", a, bits), func(x *ex) gv { return x.c.ReduceWithMaxBits(x.n[a], bits) })
		}
	case "Limb":
		a, k := p.E(t), intn(t, 2, "limb")
		p.outG(p.re[a][k], f("e%d[%d]", a, k), func(x *ex) gv { return x.e[a][k] })
		b, c := p.G(t), p.G(t)
		p.outE(ref.E{p.rg[b], p.rg[c]}, f("ext(g%d,g%d)", b, c), func(x *ex) ev { return gl.NewQuadraticExtensionVariable(x.g[b], x.g[c]) })
	case "EAdd":
		ebin(ref.EAdd, func(x *ex, a, b ev) ev { return x.c.AddExtension(a, b) })
	case "ESub":
		ebin(ref.ESub, func(x *ex, a, b ev) ev { return x.c.SubExtension(a, b) })
	case "EMul":
		ebin(ref.EMul, func(x *ex, a, b ev) ev { return x.c.MulExtension(a, b) })
	case "ENR":
		ebin(ref.EAdd, func(x *ex, a, b ev) ev { return x.c.ReduceExtension(x.c.AddExtensionNoReduce(a, b)) })
	case "ESubNR":
		ebin(ref.ESub, func(x *ex, a, b ev) ev { return x.c.ReduceExtension(x.c.SubExtensionNoReduce(a, b)) })
	case "EMulNR":
		ebin(ref.EMul, func(x *ex, a, b ev) ev { return x.c.ReduceExtension(x.c.MulExtensionNoReduce(a, b)) })
	case "EMulAdd", "ESubMul", "EMulAddNR":
		a, b, c := p.E(t), p.E(t), p.E(t)
		v := ref.EAdd(ref.EMul(p.re[a], p.re[b]), p.re[c])
		if op == "ESubMul" {
			v = ref.EMul(ref.ESub(p.re[a], p.re[b]), p.re[c])
		}
		p.outE(v, f("%s(e%d,e%d,e%d)", op, a, b, c), func(x *ex) ev {
			switch op {
			case "EMulAdd":
				return x.c.MulAddExtension(x.e[a], x.e[b], x.e[c])
			case "ESubMul":
				return x.c.SubMulExtension(x.e[a], x.e[b], x.e[c])
			}
			return x.c.ReduceExtension(x.c.MulAddExtensionNoReduce(x.e[a], x.e[b], x.e[c]))
		})
	case "EScalar":
		a, b := p.E(t), p.G(t)
		p.outE(ref.EScale(p.re[a], p.rg[b]), f("EScalar(e%d,g%d)", a, b), func(x *ex) ev { return x.c.ScalarMulExtension(x.e[a], x.g[b]) })
	case "EInverse":
		a := p.E(t)
		if ref.EIsZero(p.re[a]) {
			return
		}
		p.outE(ref.EInv(p.re[a]), f("EInverse(e%d)", a), func(x *ex) ev { v, _ := x.c.InverseExtension(x.e[a]); return v })
	case "EDiv":
		a, b := p.E(t), p.E(t)
		if ref.EIsZero(p.re[b]) {
			return
		}
		p.outE(ref.EDiv(p.re[a], p.re[b]), f("EDiv(e%d,e%d)", a, b), func(x *ex) ev { v, _ := x.c.DivExtension(x.e[a], x.e[b]); return v })
	case "EExp":
		a, k := p.E(t), uint64(intn(t, 9, "exp"))
		p.outE(ref.EExp(p.re[a], k), f("EExp(e%d,%d)", a, k), func(x *ex) ev { return x.c.ExpExtension(x.e[a], k) })
	case "EPowers":
		l, a := intn(t, len(p.rle), "list"), p.E(t)
		p.outE(ref.EPoly(p.es(p.rle[l]), p.re[a]), f("ReduceWithPowers(l%d,e%d)", l, a), func(x *ex) ev { return x.c.ReduceWithPowers(x.le[l], x.e[a]) })
	case "EInner":
		k, s := p.G(t), p.E(t)
		n := uni(t, 0, 3, "pairs")
		v := p.re[s]
		var idx [][2]int
		for i := 0; i < n; i++ {
			pr := [2]int{p.E(t), p.E(t)}
			idx = append(idx, pr)
			v = ref.EAdd(v, ref.EMul(ref.EScale(p.re[pr[0]], p.rg[k]), p.re[pr[1]]))
		}
		p.outE(v, f("InnerProduct(g%d,e%d,%v)", k, s, idx), func(x *ex) ev {
			var pairs [][2]gl.QuadraticExtensionVariable
			for _, pr := range idx {
				pairs = append(pairs, [2]gl.QuadraticExtensionVariable{x.e[pr[0]], x.e[pr[1]]})
			}
			return x.c.InnerProductExtension(x.g[k], x.e[s], pairs)
		})
	case "EZero":
		a := p.E(t)
		v := uint64(0)
		if ref.EIsZero(p.re[a]) {
			v = 1
		}
		p.outBit(v, f("IsZero(e%d)", a), func(x *ex) frontend.Variable { return x.c.IsZero(x.e[a]) })
	case "ELookup":
		b, i, j := p.use("bit", intn(t, len(p.rbit), "bit")), p.E(t), p.E(t)
		v := p.re[i]
		if p.rbit[b] == 1 {
			v = p.re[j]
		}
		p.outE(v, f("Lookup(bit%d,e%d,e%d)", b, i, j), func(x *ex) ev { return x.c.Lookup(x.bit[b], x.e[i], x.e[j]) })
	case "ELookup2":
		b0, b1 := p.use("bit", intn(t, len(p.rbit), "bit")), p.use("bit", intn(t, len(p.rbit), "bit"))
		i := [4]int{p.E(t), p.E(t), p.E(t), p.E(t)}
		p.outE(p.re[i[p.rbit[b0]+2*p.rbit[b1]]], f("Lookup2(bit%d,bit%d,e%v)", b0, b1, i), func(x *ex) ev {
			return x.c.Lookup2(x.bit[b0], x.bit[b1], x.e[i[0]], x.e[i[1]], x.e[i[2]], x.e[i[3]])
		})
	case "AAdd":
		abin(ref.AAdd, func(x *ex, a, b av) av { return x.c.AddExtensionAlgebra(a, b) })
	case "ASub":
		abin(ref.ASub, func(x *ex, a, b av) av { return x.c.SubExtensionAlgebra(a, b) })
	case "AMul":
		abin(ref.AMul, func(x *ex, a, b av) av { return x.c.MulExtensionAlgebra(a, b) })
	case "AScalar":
		a, s := p.A(t), p.E(t)
		p.outA(ref.AScale(p.ra[a], p.re[s]), f("AScalar(a%d,e%d)", a, s), func(x *ex) av { return x.c.ScalarMulExtensionAlgebra(x.e[s], x.a[a]) })
	case "AInterp":
		k := uni(t, 0, 2, "bits")
		dom := ref.Subgroup(k)
		w := ref.BarycentricWeights(dom)
		var idx []int
		var vals []ref.A
		for range dom {
			i := p.A(t)
			idx, vals = append(idx, i), append(vals, p.ra[i])
		}
		pt, ev0, pr := p.A(t), p.A(t), p.A(t)
		v0, v1 := ref.APartialInterpolate(dom, vals, w, p.ra[pt], p.ra[ev0], p.ra[pr])
		p.ra = append(p.ra, v0, v1)
		p.add(f("Interpolate(%d,a%v,a%d,a%d,a%d)", k, idx, pt, ev0, pr), func(x *ex) {
			var vs []gl.QuadraticExtensionAlgebraVariable
			var d, ws []glf.Element
			for i, j := range idx {
				vs = append(vs, x.a[j])
				d = append(d, glf.NewElement(dom[i]))
				ws = append(ws, glf.NewElement(w[i]))
			}
			o0, o1 := x.c.PartialInterpolateExtAlgebra(d, vs, ws, x.a[pt], x.a[ev0], x.a[pr])
			x.a = append(x.a, o0, o1)
		})
	case "BHash":
		l := intn(t, len(p.rlg), "list")
		p.outB(ref.HashOrNoop(p.gs(p.rlg[l])), f("HashOrNoop(l%d)", l), func(x *ex) frontend.Variable {
			return poseidon.NewBN254Chip(x.api).HashOrNoop(x.lg[l])
		})
	case "BTwo":
		a, b := p.B(t), p.B(t)
		p.outB(ref.TwoToOne(p.rb[a], p.rb[b]), f("TwoToOne(b%d,b%d)", a, b), func(x *ex) frontend.Variable {
			return poseidon.NewBN254Chip(x.api).TwoToOne(x.b[a], x.b[b])
		})
	case "BPoseidon":
		i := [4]int{p.B(t), p.B(t), p.B(t), p.B(t)}
		v := ref.PoseidonBN([4]fr.Element{p.rb[i[0]], p.rb[i[1]], p.rb[i[2]], p.rb[i[3]]})
		p.rb = append(p.rb, v[:]...)
		p.add(f("Poseidon(b%v)", i), func(x *ex) {
			o := poseidon.NewBN254Chip(x.api).Poseidon(poseidon.BN254State{x.b[i[0]], x.b[i[1]], x.b[i[2]], x.b[i[3]]})
			x.b = append(x.b, o[0], o[1], o[2], o[3])
		})
	case "BVec":
		a := p.B(t)
		v := ref.ToVec(p.rb[a])
		p.rg = append(p.rg, v...)
		p.add(f("ToVec(b%d)", a), func(x *ex) {
			x.g = append(x.g, poseidon.NewBN254Chip(x.api).ToVec(x.b[a])...)
		})
	case "GHash":
		l := intn(t, len(p.rlg), "list")
		v := ref.HashNoPad(p.gs(p.rlg[l]))
		p.rg = append(p.rg, v[:]...)
		p.add(f("HashNoPad(l%d)", l), func(x *ex) {
			o := poseidon.NewGoldilocksChip(x.api).HashNoPad(x.lg[l])
			x.g = append(x.g, o[:]...)
		})
	case "GPoseidon":
		var i [12]int
		var s [12]uint64
		for k := range i {
			i[k] = p.G(t)
			s[k] = p.rg[i[k]]
		}
		v := ref.PoseidonGL(s)
		p.rg = append(p.rg, v[:]...)
		p.add(f("PoseidonGL(g%v)", i), func(x *ex) {
			var st poseidon.GoldilocksState
			for k := range i {
				st[k] = x.g[i[k]]
			}
			o := poseidon.NewGoldilocksChip(x.api).Poseidon(st)
			x.g = append(x.g, o[:]...)
		})
	case "Challenger":
		l, b, e := intn(t, len(p.rlg), "list"), p.B(t), p.E(t)
		ch := &ref.Challenger{}
		ch.Observe(p.gs(p.rlg[l])...)
		ch.ObserveBN(p.rb[b])
		v := ch.GetN(2)
		ch.ObserveExt(p.re[e])
		w := ch.GetExt()
		p.rg = append(p.rg, v...)
		p.re = append(p.re, w)
		p.add(f("Challenger(l%d,b%d,e%d)", l, b, e), func(x *ex) {
			c := challenger.NewChip(x.api)
			c.ObserveElements(x.lg[l])
			c.ObserveBN254Hash(x.b[b])
			x.g = append(x.g, c.GetNChallenges(2)...)
			c.ObserveExtensionElement(x.e[e])
			x.e = append(x.e, c.GetExtensionChallenge())
		})
	case "Gate":
		g := drawGate(t, true)
		var wi, ci []int
		for i := 0; i < g.NumWires(); i++ {
			wi = append(wi, p.E(t))
		}
		for i := 0; i < g.NumConsts(); i++ {
			ci = append(ci, p.E(t))
		}
		var hi [4]int
		var hv [4]uint64
		for i := range hi {
			hi[i] = p.G(t)
			hv[i] = p.rg[hi[i]]
		}
		out := g.Eval(p.es(ci), p.es(wi), hv)
		p.re = append(p.re, out...)
		p.add(f("Gate %.40s(e%v,e%v,g%v)", g.ID(), ci, wi, hi), func(x *ex) {
			var w, cs []gl.QuadraticExtensionVariable
			for _, i := range wi {
				w = append(w, x.e[i])
			}
			for _, i := range ci {
				cs = append(cs, x.e[i])
			}
			var hh poseidon.GoldilocksHashOut
			for i := range hi {
				hh[i] = x.g[hi[i]]
			}
			o := gates.GateInstanceFromId(g.ID()).EvalUnfiltered(x.api, x.c, *gates.NewEvaluationVars(cs, w, hh))
			if len(o) != len(out) {
				panic(fmt.Sprintf("gate %s: %d constraints, want %d", g.ID(), len(o), len(out)))
			}
			for i := range o {
				x.e = append(x.e, x.c.ReduceExtension(o[i]))
			}
		})
	default:
		panic("HARNESS: " + op)
	}
}

func (p *program) String() string { return strings.Join(p.desc, "; ") }

// inputs lists the values of the input variables.
func (p *program) inputs() []*big.Int {
	var o []*big.Int
	for i := 0; i < p.inG; i++ {
		o = append(o, new(big.Int).SetUint64(p.rg[i]))
	}
	for i := 0; i < p.inE; i++ {
		o = append(o, new(big.Int).SetUint64(p.re[i][0]), new(big.Int).SetUint64(p.re[i][1]))
	}
	for i := 0; i < p.inB; i++ {
		o = append(o, p.rb[i].BigInt(new(big.Int)))
	}
	for i := 0; i < p.inBit; i++ {
		o = append(o, new(big.Int).SetUint64(p.rbit[i]))
	}
	return o
}

// outputs lists what every variable of the program is by direct evaluation.
func (p *program) outputs() []*big.Int {
	var o []*big.Int
	u := func(v uint64) { o = append(o, new(big.Int).SetUint64(v)) }
	for _, v := range p.rg {
		u(v)
	}
	for _, v := range p.re {
		u(v[0])
		u(v[1])
	}
	for _, v := range p.ra {
		u(v[0][0])
		u(v[0][1])
		u(v[1][0])
		u(v[1][1])
	}
	for _, v := range p.rbit {
		u(v)
	}
	for _, v := range p.rn {
		u(v)
	}
	for _, v := range p.rb {
		o = append(o, v.BigInt(new(big.Int)))
	}
	for _, l := range p.rlg {
		for _, j := range l {
			u(p.rg[j])
		}
	}
	for _, l := range p.rle {
		for _, j := range l {
			u(p.re[j][0])
			u(p.re[j][1])
		}
	}
	return o
}

// run executes the program and returns its variables, in the order of outputs, after the last operation.
func (p *program) run(api frontend.API, in []frontend.Variable) []frontend.Variable {
	x := &ex{api: api, c: gl.New(api), arG: make([]gl.Variable, 0, 64), arE: make([]gl.QuadraticExtensionVariable, 0, 64)}
	next := func() frontend.Variable { v := in[0]; in = in[1:]; return v }
	for i := 0; i < p.inG; i++ {
		x.g = append(x.g, gl.NewVariable(next()))
	}
	for i := 0; i < p.inE; i++ {
		a := gl.NewVariable(next())
		x.e = append(x.e, gl.NewQuadraticExtensionVariable(a, gl.NewVariable(next())))
	}
	for i := 0; i < p.inB; i++ {
		x.b = append(x.b, next())
	}
	for i := 0; i < p.inBit; i++ {
		b := next()
		api.AssertIsBoolean(b)
		x.bit = append(x.bit, b)
	}
	for _, op := range p.ops {
		op(x)
	}
	var o []frontend.Variable
	for _, v := range x.g {
		o = append(o, v.Limb)
	}
	for _, v := range x.e {
		o = append(o, v[0].Limb, v[1].Limb)
	}
	for _, v := range x.a {
		o = append(o, v[0][0].Limb, v[0][1].Limb, v[1][0].Limb, v[1][1].Limb)
	}
	o = append(o, x.bit...)
	for _, v := range x.n {
		o = append(o, x.c.Reduce(v).Limb)
	}
	o = append(o, x.b...)
	for _, l := range x.lg {
		for _, v := range l {
			o = append(o, v.Limb)
		}
	}
	for _, l := range x.le {
		for _, v := range l {
			o = append(o, v[0].Limb, v[1].Limb)
		}
	}
	return o
}
