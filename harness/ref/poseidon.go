package ref

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ---- Goldilocks Poseidon, textbook form: 4 full, 22 partial, 4 full rounds, one MDS each. ----

func glSbox(x uint64) uint64 { return Exp(x, 7) }

func glMDS(s [12]uint64) (o [12]uint64) {
	for r := 0; r < 12; r++ {
		acc := Mul(s[r], glDiag[r])
		for i := 0; i < 12; i++ {
			acc = Add(acc, Mul(s[(i+r)%12], glCirc[i]))
		}
		o[r] = acc
	}
	return
}

func PoseidonGL(s [12]uint64) [12]uint64 {
	for r := 0; r < 30; r++ {
		for i := 0; i < 12; i++ {
			s[i] = Add(s[i], glRC[12*r+i])
		}
		if r < 4 || r >= 26 {
			for i := 0; i < 12; i++ {
				s[i] = glSbox(s[i])
			}
		} else {
			s[0] = glSbox(s[0])
		}
		s = glMDS(s)
	}
	return s
}

func HashNToM(in []uint64, m int) []uint64 {
	var s [12]uint64
	for i := 0; i < len(in); i += 8 {
		for j := 0; j < 8 && i+j < len(in); j++ {
			s[j] = in[i+j]
		}
		s = PoseidonGL(s)
	}
	var out []uint64
	for {
		for i := 0; i < 8; i++ {
			if len(out) == m {
				return out
			}
			out = append(out, s[i])
		}
		if len(out) == m {
			return out
		}
		s = PoseidonGL(s)
	}
}

// NextUnchanged is the element that, appended to in, leaves the state that the last permutation of the
// sponge absorbs as it is (if it starts no new block).
func NextUnchanged(in []uint64) uint64 {
	var s [12]uint64
	full := len(in) / 8 * 8
	if full == len(in) {
		return 0
	}
	for i := 0; i < full; i += 8 {
		copy(s[:8], in[i:i+8])
		s = PoseidonGL(s)
	}
	return s[len(in)-full]
}

func HashNoPad(in []uint64) [4]uint64 {
	o := HashNToM(in, 4)
	return [4]uint64{o[0], o[1], o[2], o[3]}
}

// ---- BN254 Poseidon, t=4, R_F=8, R_P=56, x^5, parameters regenerated with the Grain LFSR. ----

const bnT, bnRF, bnRP = 4, 8, 56

var bnRC [(bnRF + bnRP) * bnT]fr.Element
var bnM [bnT][bnT]fr.Element

type grain struct{ s [80]byte }

func newGrain() *grain {
	g := &grain{}
	k := 0
	put := func(v uint64, n int) {
		for i := n - 1; i >= 0; i-- {
			g.s[k] = byte(v >> uint(i) & 1)
			k++
		}
	}
	put(1, 2)    // prime field
	put(0, 4)    // x^alpha
	put(254, 12) // field size
	put(bnT, 12) // width
	put(bnRF, 10)
	put(bnRP, 10)
	put(1<<30-1, 30)
	for i := 0; i < 160; i++ {
		g.step()
	}
	return g
}

func (g *grain) step() byte {
	b := g.s[62] ^ g.s[51] ^ g.s[38] ^ g.s[23] ^ g.s[13] ^ g.s[0]
	copy(g.s[:], g.s[1:])
	g.s[79] = b
	return b
}

func (g *grain) bit() byte {
	for {
		if g.step() == 1 {
			return g.step()
		}
		g.step()
	}
}

func (g *grain) num() *big.Int {
	v := new(big.Int)
	for i := 0; i < 254; i++ {
		v.Lsh(v, 1)
		if g.bit() == 1 {
			v.Or(v, big.NewInt(1))
		}
	}
	return v
}

func init() {
	g := newGrain()
	mod := fr.Modulus()
	for i := range bnRC {
		v := g.num()
		for v.Cmp(mod) >= 0 {
			v = g.num()
		}
		bnRC[i].SetBigInt(v)
	}
	var xy [2 * bnT]fr.Element
	for i := range xy {
		xy[i].SetBigInt(g.num())
	}
	for i := 0; i < bnT; i++ {
		for j := 0; j < bnT; j++ {
			var d fr.Element
			d.Add(&xy[i], &xy[bnT+j])
			bnM[i][j].Inverse(&d)
		}
	}
}

func PoseidonBN(s [4]fr.Element) [4]fr.Element {
	for r := 0; r < bnRF+bnRP; r++ {
		for i := range s {
			s[i].Add(&s[i], &bnRC[r*bnT+i])
		}
		n := bnT
		if r >= bnRF/2 && r < bnRF/2+bnRP {
			n = 1
		}
		for i := 0; i < n; i++ {
			var x2 fr.Element
			x2.Square(&s[i])
			x2.Square(&x2)
			s[i].Mul(&s[i], &x2)
		}
		var o [4]fr.Element
		for i := 0; i < bnT; i++ {
			for j := 0; j < bnT; j++ {
				var t fr.Element
				t.Mul(&bnM[i][j], &s[j])
				o[i].Add(&o[i], &t)
			}
		}
		s = o
	}
	return s
}

var two64 = func() fr.Element {
	var e fr.Element
	e.SetBigInt(new(big.Int).Lsh(big.NewInt(1), 64))
	return e
}()

// Pack3 packs up to three elements little-endian in base 2^64. Elements may be any outer-field value.
func Pack3(in []fr.Element) fr.Element {
	var acc fr.Element
	for k := len(in) - 1; k >= 0; k-- {
		acc.Mul(&acc, &two64)
		acc.Add(&acc, &in[k])
	}
	return acc
}

func HashBNFr(in []fr.Element) fr.Element {
	var s [4]fr.Element
	for i := 0; i < len(in); i += 9 {
		chunk := in[i:]
		if len(chunk) > 9 {
			chunk = chunk[:9]
		}
		for k := 0; k*3 < len(chunk); k++ {
			e := chunk[k*3:]
			if len(e) > 3 {
				e = e[:3]
			}
			s[1+k] = Pack3(e)
		}
		s = PoseidonBN(s)
	}
	return s[0]
}

func toFr(in []uint64) []fr.Element {
	o := make([]fr.Element, len(in))
	for i := range in {
		o[i].SetUint64(in[i])
	}
	return o
}

func HashBN(in []uint64) fr.Element { return HashBNFr(toFr(in)) }

func HashOrNoopFr(in []fr.Element) fr.Element {
	if len(in) <= 3 {
		return Pack3(in)
	}
	return HashBNFr(in)
}

func HashOrNoop(in []uint64) fr.Element { return HashOrNoopFr(toFr(in)) }

func TwoToOne(l, r fr.Element) fr.Element {
	return PoseidonBN([4]fr.Element{{}, {}, l, r})[0]
}

// ToVec splits the canonical integer value into five little-endian 56-bit chunks.
func ToVec(h fr.Element) []uint64 {
	v := new(big.Int)
	h.BigInt(v)
	mask := new(big.Int).SetUint64(1<<56 - 1)
	out := make([]uint64, 5)
	for i := range out {
		out[i] = new(big.Int).And(v, mask).Uint64()
		v.Rsh(v, 56)
	}
	return out
}
