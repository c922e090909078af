package eng

import (
	"math/big"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

var (
	P, _  = new(big.Int).SetString("18446744069414584321", 10)
	two32 = new(big.Int).Lsh(big.NewInt(1), 32)
)

// Lenient is a cooperative prover that never panics: where the library's honest hint refuses an
// out-of-range operand it computes the natural value instead.
type Lenient struct{}

func (Lenient) Hint(_ int, name string, f solver.Hint, in []*big.Int, nOut int) []*big.Int {
	return lenient(name, f, in, nOut)
}

func lenient(name string, f solver.Hint, in []*big.Int, nOut int) []*big.Int {
	o, why := Honest(f, in, nOut)
	if why == "" {
		return o
	}
	switch {
	case nOut == 2 && len(in) == 3:
		x := new(big.Int).Mul(in[0], in[1])
		x.Add(x, in[2])
		x.Mod(x, N)
		q, r := new(big.Int).DivMod(x, P, new(big.Int))
		return []*big.Int{q, r}
	case nOut == 2 && len(in) == 1 && name == "SplitLimbsHint":
		q, r := new(big.Int).DivMod(in[0], two32, new(big.Int))
		return []*big.Int{q, r}
	case nOut == 2 && len(in) == 1:
		q, r := new(big.Int).DivMod(in[0], P, new(big.Int))
		return []*big.Int{q, r}
	case nOut == 1 && len(in) == 1:
		x := new(big.Int).Mod(in[0], P)
		if x.Sign() != 0 {
			x.ModInverse(x, P)
		}
		return []*big.Int{x}
	}
	return zeros(nOut)
}

// Adversary answers leniently except at the chosen hint calls, where strategy S (with parameter R)
// replaces the outputs. Later hints see the forged values and are again answered consistently.
type Adversary struct {
	At     map[int]Strategy
	Last   int // number of hint calls seen
	Fired  int // how many calls actually changed something
	Names  []string
	Record bool
}

type Strategy struct {
	Kind int
	R    uint64
}

// NumStrategies is the number of perturbation kinds for a hint with n outputs.
func NumStrategies(nOut int) int {
	switch nOut {
	case 1:
		return 8
	case 2:
		return 22
	default:
		return 8
	}
}

func (a *Adversary) Hint(idx int, name string, f solver.Hint, in []*big.Int, nOut int) []*big.Int {
	a.Last = idx + 1
	if a.Record {
		a.Names = append(a.Names, name)
	}
	o := lenient(name, f, in, nOut)
	if s, ok := a.At[idx]; ok {
		n := forge(s, o, in)
		for i := range n {
			n[i].Mod(n[i], N)
			if n[i].Cmp(o[i]) != 0 {
				a.Fired++
				break
			}
		}
		for i := range n {
			n[i].Mod(n[i], N)
		}
		return n
	}
	return o
}

func bi(x int64) *big.Int { return big.NewInt(x) }
func add(a, b *big.Int) *big.Int {
	return new(big.Int).Add(a, b)
}
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

// forge perturbs honest outputs o. It does not look at the hint's name: two-output hints are treated
// as candidate (quotient, remainder) splits by p and by 2^32.
func forge(s Strategy, o, in []*big.Int) []*big.Int {
	r := new(big.Int).SetUint64(s.R)
	switch len(o) {
	case 1:
		switch s.Kind % 8 {
		case 0:
			return []*big.Int{bi(0)}
		case 1:
			return []*big.Int{bi(1)}
		case 2:
			return []*big.Int{add(o[0], P)}
		case 3:
			return []*big.Int{add(o[0], bi(1))}
		case 4:
			return []*big.Int{new(big.Int).Mod(r, P)}
		case 5:
			return []*big.Int{new(big.Int).Sub(N, o[0])}
		case 6: // inverse in the outer field
			if len(in) > 0 && in[0].Sign() != 0 {
				return []*big.Int{new(big.Int).ModInverse(in[0], N)}
			}
			return []*big.Int{bi(7)}
		default:
			return []*big.Int{add(o[0], mul(P, new(big.Int).SetUint64(s.R%1000+2)))}
		}
	case 2:
		k := s.Kind % 22
		m := P
		if k >= 11 {
			m, k = two32, k-11
		}
		x := add(mul(o[0], m), o[1])
		split := func(x *big.Int) []*big.Int {
			q, rem := new(big.Int).DivMod(x, m, new(big.Int))
			return []*big.Int{q, rem}
		}
		switch k {
		case 0, 1, 2, 3, 4: // same value modulo the outer field
			return split(add(x, mul(N, bi(int64(k+1)))))
		case 5: // remainder too large by one modulus
			return []*big.Int{add(o[0], bi(-1)), add(o[1], m)}
		case 6:
			return []*big.Int{add(o[0], bi(1)), new(big.Int).Sub(o[1], m)}
		case 7: // whole value in the remainder
			return []*big.Int{bi(0), new(big.Int).Set(x)}
		case 8: // arbitrary canonical remainder, quotient solved in the outer field
			rem := new(big.Int).Mod(r, m)
			q := new(big.Int).Sub(x, rem)
			q.Mul(q, new(big.Int).ModInverse(m, N))
			return []*big.Int{q, rem}
		case 9: // arbitrary quotient, remainder solved
			q := new(big.Int).Rsh(r, 3)
			return []*big.Int{q, new(big.Int).Sub(x, mul(q, m))}
		default:
			if s.R%2 == 0 {
				return []*big.Int{o[0], add(o[1], bi(1))}
			}
			return []*big.Int{add(o[0], bi(1)), o[1]}
		}
	default:
		n := len(o)
		out := make([]*big.Int, n)
		x := new(big.Int)
		for i := n - 1; i >= 0; i-- {
			out[i] = new(big.Int).Set(o[i])
			x.Lsh(x, 1)
			x.Add(x, o[i])
		}
		bitsOf := func(x *big.Int) []*big.Int {
			for i := range out {
				out[i] = bi(int64(x.Bit(i)))
			}
			return out
		}
		i := int(s.R % uint64(n-1))
		switch s.Kind % 8 {
		case 0: // the operand itself, not its bits
			for i := range out {
				out[i] = bi(0)
			}
			if len(in) > 0 {
				out[0] = new(big.Int).Set(in[len(in)-1])
			}
			return out
		case 1:
			if len(in) > 0 {
				return bitsOf(add(in[len(in)-1], N))
			}
			return bitsOf(add(x, N))
		case 2: // move a carry between neighbours
			out[i] = add(out[i], bi(2))
			out[i+1] = add(out[i+1], bi(-1))
		case 3:
			out[i] = add(out[i], bi(-2))
			out[i+1] = add(out[i+1], bi(1))
		case 4:
			out[i] = add(bi(1), new(big.Int).Neg(out[i]))
		case 5: // overflow into the last output
			if len(in) > 0 {
				low := new(big.Int)
				for j := n - 2; j >= 0; j-- {
					low.Lsh(low, 1)
					low.Add(low, out[j])
				}
				d := new(big.Int).Sub(in[len(in)-1], low)
				d.Mul(d, new(big.Int).ModInverse(new(big.Int).Lsh(bi(1), uint(n-1)), N))
				out[n-1] = d
			}
		case 6:
			out[n-1] = add(out[n-1], bi(1))
		default:
			if len(in) > 0 {
				return bitsOf(add(in[len(in)-1], mul(N, bi(2))))
			}
		}
		return out
	}
}

// Fixer answers leniently except where outputs are forced, and remembers every call.
type Fixer struct {
	Force map[int][]*big.Int
	In    [][]*big.Int
	Out   [][]*big.Int
}

func (f *Fixer) Hint(idx int, name string, h solver.Hint, in []*big.Int, nOut int) []*big.Int {
	o := f.Force[idx]
	if len(o) != nOut {
		o = lenient(name, h, in, nOut)
	}
	f.In, f.Out = append(f.In, in), append(f.Out, o)
	return o
}

// Repair plays a prover that, whenever an equality fails, forges the hint that produced one of its
// sides so that it holds (the quotient of a division with remainder is solved for in the outer field).
// It returns whether the circuit ends up satisfied, with the number of runs and of forged hints.
func Repair(m Mode, max int, variant uint64, define func(api frontend.API) error) (satisfied bool, runs, forged int) {
	force := map[int][]*big.Int{}
	for runs = 1; runs <= max; runs++ {
		fx := &Fixer{Force: force}
		err := Run(Opt{Mode: m, Hinter: fx, Lenient: true}, define)
		if err == nil {
			return true, runs, len(force)
		}
		rj, ok := err.(*Reject)
		if !ok || rj.A == nil {
			return false, runs, len(force)
		}
		sides := [2]*big.Int{rj.A, rj.B}
		if variant&1 == 1 {
			sides[0], sides[1] = sides[1], sides[0]
		}
		done := false
		for s := 0; s < 2 && !done; s++ {
			for i := len(fx.Out) - 1; i >= 0 && !done; i-- {
				o := fx.Out[i]
				if force[i] != nil || o[len(o)-1].Cmp(sides[s]) != 0 || len(o) > 2 {
					continue
				}
				want := sides[1-s]
				if len(o) == 1 {
					force[i] = []*big.Int{want}
				} else {
					x := add(mul(o[0], P), o[1])
					q := new(big.Int).Sub(x, want)
					q.Mul(q, new(big.Int).ModInverse(P, N))
					q.Mod(q, N)
					if variant&2 == 2 { // leave the quotient as it is
						q = o[0]
					}
					force[i] = []*big.Int{q, want}
				}
				done = true
			}
		}
		if !done {
			return false, runs, len(force)
		}
	}
	return false, max, len(force)
}
