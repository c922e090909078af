// Package ref is the oracle: a plain, slow, native Go transcription of the parts of Plonky2 that
// the code under test re-implements as circuits. It shares no code and no constants with /repo.
package ref

import "math/bits"

// P is the Goldilocks prime 2^64 - 2^32 + 1.
const P uint64 = 0xffffffff00000001

// W is the quadratic non-residue defining the extension X^2 = 7.
const W uint64 = 7

func Red(a uint64) uint64 {
	if a >= P {
		return a - P
	}
	return a
}

func Add(a, b uint64) uint64 {
	s, c := bits.Add64(a, b, 0)
	if c == 1 || s >= P {
		s -= P
	}
	return s
}

func Sub(a, b uint64) uint64 {
	d, br := bits.Sub64(a, b, 0)
	if br == 1 {
		d += P
	}
	return d
}

func Neg(a uint64) uint64 { return Sub(0, a) }

func Mul(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	return bits.Rem64(hi, lo, P)
}

func Exp(a uint64, e uint64) uint64 {
	r := uint64(1)
	for e > 0 {
		if e&1 == 1 {
			r = Mul(r, a)
		}
		a = Mul(a, a)
		e >>= 1
	}
	return r
}

func Inv(a uint64) uint64 { return Exp(a, P-2) }

// RootOfUnity returns Plonky2's primitive 2^n-th root of unity.
func RootOfUnity(n int) uint64 {
	// 7 generates the multiplicative group; 7^((p-1)/2^32) generates the 2^32 subgroup.
	r := Exp(7, (P-1)>>32)
	for i := n; i < 32; i++ {
		r = Mul(r, r)
	}
	return r
}

// E is an element of F_p[X]/(X^2-7).
type E [2]uint64

var EOne = E{1, 0}

func EB(a uint64) E          { return E{a, 0} }
func EAdd(a, b E) E          { return E{Add(a[0], b[0]), Add(a[1], b[1])} }
func ESub(a, b E) E          { return E{Sub(a[0], b[0]), Sub(a[1], b[1])} }
func ENeg(a E) E             { return E{Neg(a[0]), Neg(a[1])} }
func EScale(a E, s uint64) E { return E{Mul(a[0], s), Mul(a[1], s)} }
func EMul(a, b E) E {
	return E{
		Add(Mul(a[0], b[0]), Mul(W, Mul(a[1], b[1]))),
		Add(Mul(a[0], b[1]), Mul(a[1], b[0])),
	}
}
func EIsZero(a E) bool { return a[0] == 0 && a[1] == 0 }

// EInv uses the norm: 1/(a+bX) = (a-bX)/(a^2-7b^2).
func EInv(a E) E {
	n := Sub(Mul(a[0], a[0]), Mul(W, Mul(a[1], a[1])))
	ni := Inv(n)
	return E{Mul(a[0], ni), Mul(Neg(a[1]), ni)}
}
func EDiv(a, b E) E { return EMul(a, EInv(b)) }
func EExp(a E, e uint64) E {
	r := EOne
	for e > 0 {
		if e&1 == 1 {
			r = EMul(r, a)
		}
		a = EMul(a, a)
		e >>= 1
	}
	return r
}

// EPoly evaluates sum terms[i]*x^i.
func EPoly(terms []E, x E) E {
	r := E{}
	for i := len(terms) - 1; i >= 0; i-- {
		r = EAdd(EMul(r, x), terms[i])
	}
	return r
}

// A is an element of the degree-2 algebra E[Y]/(Y^2-7).
type A [2]E

func AAdd(a, b A) A { return A{EAdd(a[0], b[0]), EAdd(a[1], b[1])} }
func ASub(a, b A) A { return A{ESub(a[0], b[0]), ESub(a[1], b[1])} }
func AMul(a, b A) A {
	return A{
		EAdd(EMul(a[0], b[0]), EScale(EMul(a[1], b[1]), W)),
		EAdd(EMul(a[0], b[1]), EMul(a[1], b[0])),
	}
}
func AScale(a A, s E) A { return A{EMul(a[0], s), EMul(a[1], s)} }

// APartialInterpolate is Plonky2's partial_interpolate_ext_algebra.
func APartialInterpolate(domain []uint64, values []A, weights []uint64, x A, eval, prod A) (A, A) {
	for i := range values {
		term := x
		term[0] = ESub(term[0], EB(domain[i]))
		wv := AScale(values[i], EB(weights[i]))
		eval = AAdd(AMul(eval, term), AMul(wv, prod))
		prod = AMul(prod, term)
	}
	return eval, prod
}

// Subgroup lists the powers of the 2^n-th root of unity.
func Subgroup(n int) []uint64 {
	g := RootOfUnity(n)
	out := make([]uint64, 1<<n)
	out[0] = 1
	for i := 1; i < len(out); i++ {
		out[i] = Mul(out[i-1], g)
	}
	return out
}

// BarycentricWeights returns 1/prod_{j!=i}(x_i-x_j).
func BarycentricWeights(xs []uint64) []uint64 {
	out := make([]uint64, len(xs))
	for i := range xs {
		p := uint64(1)
		for j := range xs {
			if i != j {
				p = Mul(p, Sub(xs[i], xs[j]))
			}
		}
		out[i] = Inv(p)
	}
	return out
}

func RevBits(x uint64, n int) uint64 {
	if n == 0 {
		return 0
	}
	return bits.Reverse64(x) >> (64 - uint(n))
}
