package ref

import (
	"fmt"
	"strings"
)

// Gate is the reference definition of a Plonky2 gate.
type Gate interface {
	ID() string
	NumWires() int
	NumConsts() int
	NumConstraints() int
	Degree() int
	// Eval returns the constraint values at an extension-field point.
	Eval(consts, wires []E, pih [4]uint64) []E
	// Fill writes a satisfying base-field row (inputs drawn from r), given the row's constants.
	Fill(r *Rng, consts, wires []uint64, pih [4]uint64)
}

const phantom = "_phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField>"

func alg(w []E, i int) A            { return A{w[i], w[i+1]} }
func bext(w []uint64, i int) E      { return E{w[i], w[i+1]} }
func setExt(w []uint64, i int, e E) { w[i], w[i+1] = e[0], e[1] }

// ---------------------------------------------------------------- Arithmetic
type Arithmetic struct{ NumOps int }

func (g Arithmetic) ID() string          { return fmt.Sprintf("ArithmeticGate { num_ops: %d }", g.NumOps) }
func (g Arithmetic) NumWires() int       { return 4 * g.NumOps }
func (g Arithmetic) NumConsts() int      { return 2 }
func (g Arithmetic) NumConstraints() int { return g.NumOps }
func (g Arithmetic) Degree() int         { return 3 }
func (g Arithmetic) Eval(c, w []E, _ [4]uint64) (o []E) {
	for i := 0; i < g.NumOps; i++ {
		v := EAdd(EMul(EMul(w[4*i], w[4*i+1]), c[0]), EMul(w[4*i+2], c[1]))
		o = append(o, ESub(w[4*i+3], v))
	}
	return
}
func (g Arithmetic) Fill(r *Rng, c, w []uint64, _ [4]uint64) {
	for i := 0; i < g.NumOps; i++ {
		a, b, d := r.F(), r.F(), r.F()
		w[4*i], w[4*i+1], w[4*i+2] = a, b, d
		w[4*i+3] = Add(Mul(Mul(a, b), c[0]), Mul(d, c[1]))
	}
}

// ---------------------------------------------------------------- ArithmeticExtension
type ArithmeticExtension struct{ NumOps int }

func (g ArithmeticExtension) ID() string {
	return fmt.Sprintf("ArithmeticExtensionGate { num_ops: %d }", g.NumOps)
}
func (g ArithmeticExtension) NumWires() int       { return 8 * g.NumOps }
func (g ArithmeticExtension) NumConsts() int      { return 2 }
func (g ArithmeticExtension) NumConstraints() int { return 2 * g.NumOps }
func (g ArithmeticExtension) Degree() int         { return 3 }
func (g ArithmeticExtension) Eval(c, w []E, _ [4]uint64) (o []E) {
	for i := 0; i < g.NumOps; i++ {
		b := 8 * i
		v := AAdd(AScale(AMul(alg(w, b), alg(w, b+2)), c[0]), AScale(alg(w, b+4), c[1]))
		d := ASub(alg(w, b+6), v)
		o = append(o, d[0], d[1])
	}
	return
}
func (g ArithmeticExtension) Fill(r *Rng, c, w []uint64, _ [4]uint64) {
	for i := 0; i < g.NumOps; i++ {
		x, y, z := r.E(), r.E(), r.E()
		setExt(w, 8*i, x)
		setExt(w, 8*i+2, y)
		setExt(w, 8*i+4, z)
		setExt(w, 8*i+6, EAdd(EScale(EMul(x, y), c[0]), EScale(z, c[1])))
	}
}

// ---------------------------------------------------------------- BaseSum
type BaseSum struct{ NumLimbs, Base int }

func (g BaseSum) ID() string {
	return fmt.Sprintf("BaseSumGate { num_limbs: %d } + Base: %d", g.NumLimbs, g.Base)
}
func (g BaseSum) NumWires() int       { return 1 + g.NumLimbs }
func (g BaseSum) NumConsts() int      { return 0 }
func (g BaseSum) NumConstraints() int { return 1 + g.NumLimbs }
func (g BaseSum) Degree() int         { return g.Base }
func (g BaseSum) Eval(_, w []E, _ [4]uint64) (o []E) {
	o = append(o, ESub(EPoly(w[1:1+g.NumLimbs], EB(uint64(g.Base))), w[0]))
	for i := 0; i < g.NumLimbs; i++ {
		p := EOne
		for j := 0; j < g.Base; j++ {
			p = EMul(p, ESub(w[1+i], EB(uint64(j))))
		}
		o = append(o, p)
	}
	return
}
func (g BaseSum) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	s := uint64(0)
	for i := g.NumLimbs - 1; i >= 0; i-- {
		l := uint64(r.N(g.Base))
		w[1+i] = l
		s = Add(Mul(s, uint64(g.Base)), l)
	}
	w[0] = s
}

// ---------------------------------------------------------------- Constant
type Constant struct{ Num int }

func (g Constant) ID() string          { return fmt.Sprintf("ConstantGate { num_consts: %d }", g.Num) }
func (g Constant) NumWires() int       { return g.Num }
func (g Constant) NumConsts() int      { return g.Num }
func (g Constant) NumConstraints() int { return g.Num }
func (g Constant) Degree() int         { return 1 }
func (g Constant) Eval(c, w []E, _ [4]uint64) (o []E) {
	for i := 0; i < g.Num; i++ {
		o = append(o, ESub(c[i], w[i]))
	}
	return
}
func (g Constant) Fill(_ *Rng, c, w []uint64, _ [4]uint64) { copy(w[:g.Num], c[:g.Num]) }

// ---------------------------------------------------------------- CosetInterpolation
type CosetInterpolation struct{ Bits, Deg int }

func (g CosetInterpolation) weights() []uint64 { return BarycentricWeights(Subgroup(g.Bits)) }
func (g CosetInterpolation) ID() string {
	var ws []string
	for _, w := range g.weights() {
		ws = append(ws, fmt.Sprint(w))
	}
	return fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], %s }<D=2>", g.Bits, g.Deg, strings.Join(ws, ", "), phantom)
}
func (g CosetInterpolation) inter() int { return (1<<g.Bits - 2) / (g.Deg - 1) }
func (g CosetInterpolation) layout() (point, value, inters, shifted int) {
	n := 1 << g.Bits
	point = 1 + 2*n
	value = point + 2
	inters = value + 2
	shifted = inters + 4*g.inter()
	return
}
func (g CosetInterpolation) NumWires() int {
	_, _, _, s := g.layout()
	return s + 2
}
func (g CosetInterpolation) NumConsts() int      { return 0 }
func (g CosetInterpolation) NumConstraints() int { return 4 + 4*g.inter() }
func (g CosetInterpolation) Degree() int         { return g.Deg }
func (g CosetInterpolation) Eval(_, w []E, _ [4]uint64) (o []E) {
	pt, val, in, sh := g.layout()
	n := 1 << g.Bits
	sp := alg(w, sh)
	d := ASub(alg(w, pt), AScale(sp, w[0]))
	o = append(o, d[0], d[1])
	dom, wts := Subgroup(g.Bits), g.weights()
	vals := make([]A, n)
	for i := range vals {
		vals[i] = alg(w, 1+2*i)
	}
	ni := g.inter()
	ev, pr := APartialInterpolate(dom[:g.Deg], vals[:g.Deg], wts[:g.Deg], sp, A{}, A{EOne})
	for i := 0; i < ni; i++ {
		ie, ip := alg(w, in+2*i), alg(w, in+2*(ni+i))
		x, y := ASub(ie, ev), ASub(ip, pr)
		o = append(o, x[0], x[1], y[0], y[1])
		st := 1 + (g.Deg-1)*(i+1)
		en := st + g.Deg - 1
		if en > n {
			en = n
		}
		ev, pr = APartialInterpolate(dom[st:en], vals[st:en], wts[st:en], sp, ie, ip)
	}
	x := ASub(alg(w, val), ev)
	return append(o, x[0], x[1])
}

// Fill computes the interpolation semantically (Lagrange over the shifted coset), and the
// intermediates by the recurrence.
func (g CosetInterpolation) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	pt, val, in, sh := g.layout()
	n := 1 << g.Bits
	shift := r.F()
	if shift == 0 {
		shift = 1
	}
	w[0] = shift
	ys := make([]E, n)
	xs := make([]E, n)
	dom := Subgroup(g.Bits)
	for i := range ys {
		ys[i] = r.E()
		setExt(w, 1+2*i, ys[i])
		xs[i] = EB(Mul(shift, dom[i]))
	}
	z := E{r.F(), r.U64() % P}
	setExt(w, pt, z)
	setExt(w, val, Interpolate(xs, ys, z))
	sp := EScale(z, Inv(shift))
	setExt(w, sh, sp)
	wts := g.weights()
	ev, pr := E{}, EOne
	k := 0
	ni := g.inter()
	for i := 0; i < ni; i++ {
		end := 1 + (g.Deg-1)*(i+1)
		for ; k < end; k++ {
			t := ESub(sp, EB(dom[k]))
			ev = EAdd(EMul(ev, t), EMul(EScale(ys[k], wts[k]), pr))
			pr = EMul(pr, t)
		}
		setExt(w, in+2*i, ev)
		setExt(w, in+2*(ni+i), pr)
	}
}

// ---------------------------------------------------------------- Exponentiation
type Exponentiation struct{ Bits int }

func (g Exponentiation) ID() string {
	return fmt.Sprintf("ExponentiationGate { num_power_bits: %d, %s }<D=2>", g.Bits, phantom)
}
func (g Exponentiation) NumWires() int       { return 2 + 2*g.Bits }
func (g Exponentiation) NumConsts() int      { return 0 }
func (g Exponentiation) NumConstraints() int { return g.Bits + 1 }
func (g Exponentiation) Degree() int         { return 4 }
func (g Exponentiation) Eval(_, w []E, _ [4]uint64) (o []E) {
	for i := 0; i < g.Bits; i++ {
		prev := EOne
		if i > 0 {
			p := w[2+g.Bits+i-1]
			prev = EMul(p, p)
		}
		b := w[1+g.Bits-1-i]
		sel := EAdd(EMul(b, w[0]), ESub(EOne, b))
		o = append(o, ESub(EMul(prev, sel), w[2+g.Bits+i]))
	}
	return append(o, ESub(w[1+g.Bits], w[2+g.Bits+g.Bits-1]))
}
func (g Exponentiation) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	base := r.F()
	w[0] = base
	acc := uint64(1)
	for i := 0; i < g.Bits; i++ {
		b := r.U64() & 1
		w[1+g.Bits-1-i] = b
		acc = Mul(acc, acc)
		if b == 1 {
			acc = Mul(acc, base)
		}
		w[2+g.Bits+i] = acc
	}
	w[1+g.Bits] = acc
}

// ---------------------------------------------------------------- MulExtension
type MulExtension struct{ NumOps int }

func (g MulExtension) ID() string          { return fmt.Sprintf("MulExtensionGate { num_ops: %d }", g.NumOps) }
func (g MulExtension) NumWires() int       { return 6 * g.NumOps }
func (g MulExtension) NumConsts() int      { return 1 }
func (g MulExtension) NumConstraints() int { return 2 * g.NumOps }
func (g MulExtension) Degree() int         { return 3 }
func (g MulExtension) Eval(c, w []E, _ [4]uint64) (o []E) {
	for i := 0; i < g.NumOps; i++ {
		d := ASub(alg(w, 6*i+4), AScale(AMul(alg(w, 6*i), alg(w, 6*i+2)), c[0]))
		o = append(o, d[0], d[1])
	}
	return
}
func (g MulExtension) Fill(r *Rng, c, w []uint64, _ [4]uint64) {
	for i := 0; i < g.NumOps; i++ {
		x, y := r.E(), r.E()
		setExt(w, 6*i, x)
		setExt(w, 6*i+2, y)
		setExt(w, 6*i+4, EScale(EMul(x, y), c[0]))
	}
}

// ---------------------------------------------------------------- Noop
type Noop struct{}

func (Noop) ID() string                               { return "NoopGate" }
func (Noop) NumWires() int                            { return 0 }
func (Noop) NumConsts() int                           { return 0 }
func (Noop) NumConstraints() int                      { return 0 }
func (Noop) Degree() int                              { return 0 }
func (Noop) Eval(_, _ []E, _ [4]uint64) []E           { return nil }
func (Noop) Fill(*Rng, []uint64, []uint64, [4]uint64) {}

// ---------------------------------------------------------------- Poseidon
type PoseidonG struct{}

func (PoseidonG) ID() string {
	return "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
}
func (PoseidonG) NumWires() int       { return 135 }
func (PoseidonG) NumConsts() int      { return 0 }
func (PoseidonG) NumConstraints() int { return 123 }
func (PoseidonG) Degree() int         { return 7 }

const (
	pgDelta = 25
	pgFull0 = 29
	pgPart  = 65
	pgFull1 = 87
)

// In the textbook round structure the S-box inputs of the partial rounds are the same as in
// Plonky2's optimised form, so the reference needs none of the optimised constants.
func (PoseidonG) Eval(_, w []E, _ [4]uint64) (o []E) {
	sw := w[24]
	o = append(o, EMul(sw, ESub(sw, EOne)))
	for i := 0; i < 4; i++ {
		o = append(o, ESub(EMul(sw, ESub(w[i+4], w[i])), w[pgDelta+i]))
	}
	var s [12]E
	for i := 0; i < 4; i++ {
		s[i] = EAdd(w[i], w[pgDelta+i])
		s[i+4] = ESub(w[i+4], w[pgDelta+i])
	}
	copy(s[8:], w[8:12])
	for r := 0; r < 30; r++ {
		for i := range s {
			s[i] = EAdd(s[i], EB(glRC[12*r+i]))
		}
		switch {
		case r < 4 || r >= 26:
			for i := range s {
				if r == 0 {
					continue
				}
				k := pgFull0 + (r-1)*12 + i
				if r >= 26 {
					k = pgFull1 + (r-26)*12 + i
				}
				o = append(o, ESub(s[i], w[k]))
				s[i] = w[k]
			}
			for i := range s {
				s[i] = EExp(s[i], 7)
			}
		default:
			o = append(o, ESub(s[0], w[pgPart+r-4]))
			s[0] = EExp(w[pgPart+r-4], 7)
		}
		var n [12]E
		for a := 0; a < 12; a++ {
			acc := EScale(s[a], glDiag[a])
			for i := 0; i < 12; i++ {
				acc = EAdd(acc, EScale(s[(i+a)%12], glCirc[i]))
			}
			n[a] = acc
		}
		s = n
	}
	for i := range s {
		o = append(o, ESub(s[i], w[12+i]))
	}
	return
}
func (PoseidonG) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	for i := 0; i < 12; i++ {
		w[i] = r.F()
	}
	sw := r.U64() & 1
	w[24] = sw
	var s [12]uint64
	copy(s[:], w[:12])
	for i := 0; i < 4; i++ {
		w[pgDelta+i] = 0
		if sw == 1 {
			w[pgDelta+i] = Sub(w[i+4], w[i])
			s[i], s[i+4] = w[i+4], w[i]
		}
	}
	for rd := 0; rd < 30; rd++ {
		for i := range s {
			s[i] = Add(s[i], glRC[12*rd+i])
		}
		if rd < 4 || rd >= 26 {
			for i := range s {
				if rd > 0 && rd < 4 {
					w[pgFull0+(rd-1)*12+i] = s[i]
				} else if rd >= 26 {
					w[pgFull1+(rd-26)*12+i] = s[i]
				}
				s[i] = glSbox(s[i])
			}
		} else {
			w[pgPart+rd-4] = s[0]
			s[0] = glSbox(s[0])
		}
		s = glMDS(s)
	}
	copy(w[12:24], s[:])
}

// ---------------------------------------------------------------- PoseidonMds
type PoseidonMds struct{}

func (PoseidonMds) ID() string {
	return "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
}
func (PoseidonMds) NumWires() int       { return 48 }
func (PoseidonMds) NumConsts() int      { return 0 }
func (PoseidonMds) NumConstraints() int { return 24 }
func (PoseidonMds) Degree() int         { return 1 }
func (PoseidonMds) Eval(_, w []E, _ [4]uint64) (o []E) {
	for a := 0; a < 12; a++ {
		acc := AScale(alg(w, 2*a), EB(glDiag[a]))
		for i := 0; i < 12; i++ {
			acc = AAdd(acc, AScale(alg(w, 2*((i+a)%12)), EB(glCirc[i])))
		}
		d := ASub(alg(w, 24+2*a), acc)
		o = append(o, d[0], d[1])
	}
	return
}
func (PoseidonMds) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	for h := 0; h < 2; h++ {
		var s [12]uint64
		for i := range s {
			s[i] = r.F()
			w[2*i+h] = s[i]
		}
		s = glMDS(s)
		for i := range s {
			w[24+2*i+h] = s[i]
		}
	}
}

// ---------------------------------------------------------------- PublicInput
type PublicInput struct{}

func (PublicInput) ID() string          { return "PublicInputGate" }
func (PublicInput) NumWires() int       { return 4 }
func (PublicInput) NumConsts() int      { return 0 }
func (PublicInput) NumConstraints() int { return 4 }
func (PublicInput) Degree() int         { return 1 }
func (PublicInput) Eval(_, w []E, h [4]uint64) (o []E) {
	for i := 0; i < 4; i++ {
		o = append(o, ESub(w[i], EB(h[i])))
	}
	return
}
func (PublicInput) Fill(_ *Rng, _, w []uint64, h [4]uint64) { copy(w[:4], h[:]) }

// ---------------------------------------------------------------- RandomAccess
type RandomAccess struct{ Bits, Copies, Extra int }

func (g RandomAccess) ID() string {
	return fmt.Sprintf("RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d, %s }<D=2>", g.Bits, g.Copies, g.Extra, phantom)
}
func (g RandomAccess) routed() int         { return (2+(1<<g.Bits))*g.Copies + g.Extra }
func (g RandomAccess) NumWires() int       { return g.routed() + g.Bits*g.Copies }
func (g RandomAccess) NumConsts() int      { return g.Extra }
func (g RandomAccess) NumConstraints() int { return g.Copies*(g.Bits+2) + g.Extra }
func (g RandomAccess) Degree() int         { return g.Bits + 1 }
func (g RandomAccess) Eval(c, w []E, _ [4]uint64) (o []E) {
	n := 1 << g.Bits
	for k := 0; k < g.Copies; k++ {
		b0 := (2 + n) * k
		list := append([]E(nil), w[b0+2:b0+2+n]...)
		bits := w[g.routed()+k*g.Bits : g.routed()+(k+1)*g.Bits]
		for _, b := range bits {
			o = append(o, ESub(EMul(b, b), b))
		}
		o = append(o, ESub(EPoly(bits, EB(2)), w[b0]))
		// multilinear selection, bit 0 first
		for _, b := range bits {
			var nl []E
			for i := 0; i < len(list); i += 2 {
				nl = append(nl, EAdd(list[i], EMul(b, ESub(list[i+1], list[i]))))
			}
			list = nl
		}
		o = append(o, ESub(list[0], w[b0+1]))
	}
	for i := 0; i < g.Extra; i++ {
		o = append(o, ESub(c[i], w[(2+n)*g.Copies+i]))
	}
	return
}
func (g RandomAccess) Fill(r *Rng, c, w []uint64, _ [4]uint64) {
	n := 1 << g.Bits
	for k := 0; k < g.Copies; k++ {
		b0 := (2 + n) * k
		idx := r.N(n)
		w[b0] = uint64(idx)
		for i := 0; i < n; i++ {
			w[b0+2+i] = r.F()
		}
		w[b0+1] = w[b0+2+idx]
		for i := 0; i < g.Bits; i++ {
			w[g.routed()+k*g.Bits+i] = uint64(idx >> i & 1)
		}
	}
	for i := 0; i < g.Extra; i++ {
		w[(2+n)*g.Copies+i] = c[i]
	}
}

// ---------------------------------------------------------------- Reducing / ReducingExtension
type Reducing struct{ N int }

func (g Reducing) ID() string          { return fmt.Sprintf("ReducingGate { num_coeffs: %d }", g.N) }
func (g Reducing) NumWires() int       { return 6 + g.N + 2*(g.N-1) }
func (g Reducing) NumConsts() int      { return 0 }
func (g Reducing) NumConstraints() int { return 2 * g.N }
func (g Reducing) Degree() int         { return 2 }
func (g Reducing) acc(i int) int {
	if i == g.N-1 {
		return 0
	}
	return 6 + g.N + 2*i
}
func (g Reducing) Eval(_, w []E, _ [4]uint64) (o []E) {
	acc := alg(w, 4)
	for i := 0; i < g.N; i++ {
		v := AMul(acc, alg(w, 2))
		v[0] = EAdd(v[0], w[6+i])
		d := ASub(v, alg(w, g.acc(i)))
		o = append(o, d[0], d[1])
		acc = alg(w, g.acc(i))
	}
	return
}
func (g Reducing) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	al, acc := r.E(), r.E()
	setExt(w, 2, al)
	setExt(w, 4, acc)
	for i := 0; i < g.N; i++ {
		w[6+i] = r.F()
		acc = EAdd(EMul(acc, al), EB(w[6+i]))
		setExt(w, g.acc(i), acc)
	}
}

type ReducingExtension struct{ N int }

func (g ReducingExtension) ID() string {
	return fmt.Sprintf("ReducingExtensionGate { num_coeffs: %d }", g.N)
}
func (g ReducingExtension) NumWires() int       { return 6 + 2*g.N + 2*(g.N-1) }
func (g ReducingExtension) NumConsts() int      { return 0 }
func (g ReducingExtension) NumConstraints() int { return 2 * g.N }
func (g ReducingExtension) Degree() int         { return 2 }
func (g ReducingExtension) acc(i int) int {
	if i == g.N-1 {
		return 0
	}
	return 6 + 2*g.N + 2*i
}
func (g ReducingExtension) Eval(_, w []E, _ [4]uint64) (o []E) {
	acc := alg(w, 4)
	for i := 0; i < g.N; i++ {
		d := ASub(AAdd(AMul(acc, alg(w, 2)), alg(w, 6+2*i)), alg(w, g.acc(i)))
		o = append(o, d[0], d[1])
		acc = alg(w, g.acc(i))
	}
	return
}
func (g ReducingExtension) Fill(r *Rng, _, w []uint64, _ [4]uint64) {
	al, acc := r.E(), r.E()
	setExt(w, 2, al)
	setExt(w, 4, acc)
	for i := 0; i < g.N; i++ {
		c := r.E()
		setExt(w, 6+2*i, c)
		acc = EAdd(EMul(acc, al), c)
		setExt(w, g.acc(i), acc)
	}
}
