package eng

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

// Blank builds a circuit without computing a value: every operation returns a fresh variable, every
// assertion holds, no hint is run. What remains is the building code itself, which is then nearly all
// that goroutines building at the same time execute.
type Blank struct{ *Engine }

func (b *Blank) Check(v frontend.Variable, bits int) { b.step("Check", v, bits) }

func (b *Blank) op(n string, in ...frontend.Variable) frontend.Variable {
	b.step(n, in...)
	return b.out()
}
func (b *Blank) ops(k int, n string, in ...frontend.Variable) []frontend.Variable {
	b.step(n, in...)
	o := make([]frontend.Variable, k)
	for i := range o {
		o[i] = b.out()
	}
	return o
}
func lst(a, c frontend.Variable, in []frontend.Variable) []frontend.Variable {
	return append([]frontend.Variable{a, c}, in...)
}
func (b *Blank) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return b.op("Add", lst(i1, i2, in)...)
}
func (b *Blank) MulAcc(x, y, z frontend.Variable) frontend.Variable { return b.op("MulAcc", x, y, z) }
func (b *Blank) Neg(x frontend.Variable) frontend.Variable          { return b.op("Neg", x) }
func (b *Blank) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return b.op("Sub", lst(i1, i2, in)...)
}
func (b *Blank) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return b.op("Mul", lst(i1, i2, in)...)
}
func (b *Blank) DivUnchecked(x, y frontend.Variable) frontend.Variable {
	return b.op("DivUnchecked", x, y)
}
func (b *Blank) Div(x, y frontend.Variable) frontend.Variable  { return b.op("Div", x, y) }
func (b *Blank) Inverse(x frontend.Variable) frontend.Variable { return b.op("Inverse", x) }
func (b *Blank) BatchInvert(in []frontend.Variable) []frontend.Variable {
	return b.ops(len(in), "BatchInvert", in...)
}
func (b *Blank) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	nb := 254
	if len(n) > 0 {
		nb = n[0]
	}
	return b.ops(nb, "ToBinary", x, nb)
}
func (b *Blank) FromBinary(in ...frontend.Variable) frontend.Variable {
	return b.op("FromBinary", in...)
}
func (b *Blank) Xor(x, y frontend.Variable) frontend.Variable       { return b.op("Xor", x, y) }
func (b *Blank) Or(x, y frontend.Variable) frontend.Variable        { return b.op("Or", x, y) }
func (b *Blank) And(x, y frontend.Variable) frontend.Variable       { return b.op("And", x, y) }
func (b *Blank) Select(c, x, y frontend.Variable) frontend.Variable { return b.op("Select", c, x, y) }
func (b *Blank) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	return b.op("Lookup2", b0, b1, i0, i1, i2, i3)
}
func (b *Blank) IsZero(x frontend.Variable) frontend.Variable { return b.op("IsZero", x) }
func (b *Blank) Cmp(x, y frontend.Variable) frontend.Variable { return b.op("Cmp", x, y) }
func (b *Blank) AssertIsEqual(x, y frontend.Variable)         { b.step("AssertIsEqual", x, y) }
func (b *Blank) AssertIsDifferent(x, y frontend.Variable)     { b.step("AssertIsDifferent", x, y) }
func (b *Blank) AssertIsBoolean(x frontend.Variable)          { b.step("AssertIsBoolean", x) }
func (b *Blank) AssertIsLessOrEqual(x, y frontend.Variable)   { b.step("AssertIsLessOrEqual", x, y) }
func (b *Blank) MustBeLessOrEqCst(bits []frontend.Variable, bound *big.Int, _ frontend.Variable) {
	b.step("MustBeLessOrEqCst", append([]frontend.Variable{bound}, bits...)...)
}
func (b *Blank) MarkBoolean(frontend.Variable)    {}
func (b *Blank) IsBoolean(frontend.Variable) bool { return false }
func (b *Blank) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return b.ops(n, "Hint", append([]frontend.Variable{n}, in...)...), nil
}
func (b *Blank) Compiler() frontend.Compiler { return b }

// RunBlank builds the circuit and returns the digest of its operations.
func RunBlank(define func(api frontend.API) error) (s Sum, err error) {
	e := &Engine{slow: true, sum: &s}
	b := &Blank{e}
	e.outer = b
	defer func() {
		if r := recover(); r != nil {
			if rt := reflect.TypeOf(r); rt != nil && strings.HasPrefix(rt.PkgPath(), "pgregory.net/rapid") {
				panic(r)
			}
			err = &Refuse{fmt.Sprint(r), string(debug.Stack())}
		}
	}()
	if err := define(b); err != nil {
		return s, &Refuse{err.Error(), ""}
	}
	for i := 0; i < len(e.deferred); i++ {
		if err := e.deferred[i](b); err != nil {
			return s, &Refuse{err.Error(), ""}
		}
	}
	return s, nil
}
