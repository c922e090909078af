package ref

import "testing"

func TestFillSatisfies(t *testing.T) {
	gs := []Gate{Arithmetic{3}, ArithmeticExtension{2}, BaseSum{5, 2}, BaseSum{4, 4}, Constant{2}, CosetInterpolation{4, 6}, CosetInterpolation{2, 2}, CosetInterpolation{3, 4}, CosetInterpolation{1, 2}, CosetInterpolation{4, 16}, Exponentiation{7}, MulExtension{2}, Noop{}, PoseidonG{}, PoseidonMds{}, PublicInput{}, RandomAccess{3, 2, 2}, Reducing{5}, ReducingExtension{4}, Reducing{1}}
	for _, g := range gs {
		for it := 0; it < 20; it++ {
			r := NewRng(uint64(it))
			c, w := r.Fs(g.NumConsts()), make([]uint64, g.NumWires())
			h := [4]uint64{r.F(), r.F(), r.F(), r.F()}
			g.Fill(r, c, w, h)
			var ce, we []E
			for _, x := range c {
				ce = append(ce, EB(x))
			}
			for _, x := range w {
				we = append(we, EB(x))
			}
			o := g.Eval(ce, we, h)
			if len(o) != g.NumConstraints() {
				t.Fatal(g.ID(), len(o))
			}
			for i, v := range o {
				if !EIsZero(v) {
					t.Fatal(g.ID(), i, v)
				}
			}
		}
	}
}
