// Package eng evaluates gnark circuits directly over the BN254 scalar field. It implements
// frontend.API and frontend.Compiler with eager evaluation: an unsatisfied constraint makes Run
// return a *Reject. Hints go through a Hinter, which lets a check play a malicious prover.
package eng

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	glf "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

var N = fr.Modulus()

// Val is a circuit variable with a known value.
type Val struct {
	V   fr.Element
	own *Engine // the engine that computed it; nil for inputs
	id  uint64
}

// Reject: a constraint (or an honest hint) failed, i.e. this assignment is not a witness.
type Reject struct {
	Why   string
	Stack string
	A, B  *big.Int // the two sides of a failed equality
}

func (r *Reject) Error() string { return "reject: " + r.Why }

// Refuse: the code under test panicked or returned an error while building the circuit.
type Refuse struct {
	Why   string
	Stack string
}

func (r *Refuse) Error() string { return "refuse: " + r.Why }

type Mode int

const (
	Native Mode = iota // backend offers a native range checker
	Commit             // backend offers commitments
	Plain              // neither: bit decomposition
)

func (m Mode) String() string { return [...]string{"native", "commit", "plain"}[m] }

// Hinter supplies hint outputs. idx counts hint calls. Returning nil means "run f honestly".
type Hinter interface {
	Hint(idx int, name string, f solver.Hint, in []*big.Int, nOut int) []*big.Int
}

type compilerIface = frontend.Compiler

type Engine struct {
	compilerIface // nil: unimplemented methods panic
	outer         frontend.API
	hinter        Hinter
	strict        bool // honest hints that panic or fail reject
	nHints        int
	deferred      []func(frontend.API) error
	kv            map[any]any
	commitSeed    uint64
	Constraints   int
	trace         bool
	slow          bool // step is wanted
	yield         func()
	sum           *Sum
	ids           uint64
}

// Sum is a running digest of the sequence of operations of a run and of how they are wired.
type Sum struct {
	H uint64
	N int
}

// out allocates the result of an operation of this engine.
func (e *Engine) out() *Val {
	e.ids++
	return &Val{own: e, id: e.ids}
}
func (e *Engine) mk(x uint64) frontend.Variable {
	r := e.out()
	r.V.SetUint64(x)
	return r
}

func (e *Engine) step(op string, in ...frontend.Variable) {
	if e.sum != nil {
		h := e.sum.H
		for i := 0; i < len(op); i++ {
			h = (h ^ uint64(op[i])) * 0x100000001b3
		}
		for _, v := range in {
			if x, ok := v.(*Val); ok && x.own != nil {
				h = (h ^ x.id) * 0x9e3779b97f4a7c15
			} else {
				z := e.el(v)
				for _, w := range z {
					h = (h ^ w) * 0xbf58476d1ce4e5b9
				}
			}
			h ^= h >> 29
		}
		e.sum.H = h
		e.sum.N++
	}
	if e.yield != nil {
		e.yield()
	}
}

type nativeEngine struct{ *Engine }
type commitEngine struct{ *Engine }
type plainEngine struct{ *Engine }

// distinct pointer types keep the API values hashable and select the checker mode
type NativeAPI struct{ nativeEngine }
type CommitAPI struct{ commitEngine }
type PlainAPI struct{ plainEngine }

func (n *NativeAPI) Check(v frontend.Variable, bits int) {
	if n.slow {
		n.step("Check", v, bits)
	}
	x := n.toInt(v)
	n.Constraints++
	if x.BitLen() > bits {
		n.fail("native range check")
	}
}

func (n *CommitAPI) Commit(vs ...frontend.Variable) (frontend.Variable, error) {
	acc := fr.NewElement(n.commitSeed)
	var m fr.Element
	m.SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989")
	for _, v := range vs {
		var e fr.Element
		n.ld(&e, v)
		acc.Add(&acc, &e)
		acc.Mul(&acc, &m)
		var c fr.Element
		c.SetUint64(0x9e3779b97f4a7c15)
		acc.Add(&acc, &c)
	}
	if n.slow {
		n.step("Commit", vs...)
	}
	r := n.out()
	r.V = acc
	return r, nil
}

type Opt struct {
	Mode   Mode
	Hinter Hinter // nil: honest
	// Lenient: honest hints that panic do not reject (soundness search); default is strict.
	Lenient bool
	Trace   bool
	Yield   func() // called at every operation
	Sum     *Sum   // receives a digest of the operations
}

// Run builds and evaluates the circuit. nil: satisfied; *Reject; *Refuse.
func Run(o Opt, define func(api frontend.API) error) (err error) {
	e := &Engine{hinter: o.Hinter, strict: !o.Lenient, commitSeed: 0x1234567, trace: o.Trace, yield: o.Yield, sum: o.Sum, slow: o.Yield != nil || o.Sum != nil}
	if o.Hinter == nil && o.Lenient {
		e.hinter = Lenient{}
	}
	switch o.Mode {
	case Native:
		e.outer = &NativeAPI{nativeEngine{e}}
	case Commit:
		e.outer = &CommitAPI{commitEngine{e}}
	case Plain:
		e.outer = &PlainAPI{plainEngine{e}}
	}
	defer func() {
		e.deferred, e.kv, e.hinter = nil, nil, nil
		if r := recover(); r != nil {
			if rj, ok := r.(*Reject); ok {
				err = rj
				return
			}
			if rt := reflect.TypeOf(r); rt != nil && strings.HasPrefix(rt.PkgPath(), "pgregory.net/rapid") {
				panic(r) // the property's own failure or skip
			}
			err = &Refuse{fmt.Sprint(r), string(debug.Stack())}
		}
	}()
	if err := define(e.outer); err != nil {
		return &Refuse{err.Error(), ""}
	}
	for i := 0; i < len(e.deferred); i++ {
		if err := e.deferred[i](e.outer); err != nil {
			return &Refuse{err.Error(), ""}
		}
	}
	return nil
}

func IsReject(err error) bool { _, ok := err.(*Reject); return ok }
func IsRefuse(err error) bool { _, ok := err.(*Refuse); return ok }

func (e *Engine) fail(why string) {
	st := ""
	if e.trace {
		st = string(debug.Stack())
	}
	panic(&Reject{Why: why, Stack: st})
}

func (e *Engine) ld(z *fr.Element, v frontend.Variable) {
	switch x := v.(type) {
	case *Val:
		if x.own != nil && e != nil && x.own != e {
			panic("a variable of another circuit is used")
		}
		*z = x.V
	case Val:
		*z = x.V
	case int:
		z.SetInt64(int64(x))
	case uint64:
		z.SetUint64(x)
	case *big.Int:
		z.SetBigInt(x)
	case big.Int:
		z.SetBigInt(&x)
	case int64:
		z.SetInt64(x)
	case uint32:
		z.SetUint64(uint64(x))
	case uint8:
		z.SetUint64(uint64(x))
	case uint:
		z.SetUint64(uint64(x))
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic("can't parse constant " + x)
		}
		z.SetBigInt(b)
	case glf.Element:
		z.SetUint64(x.Uint64())
	case *glf.Element:
		z.SetUint64(x.Uint64())
	case fr.Element:
		*z = x
	case *fr.Element:
		*z = *x
	case nil:
		panic("nil variable")
	default:
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			z.SetInt64(rv.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			z.SetUint64(rv.Uint())
		default:
			panic(fmt.Sprintf("unsupported constant type %T", v))
		}
	}
}

func (e *Engine) el(v frontend.Variable) fr.Element {
	var z fr.Element
	e.ld(&z, v)
	return z
}
func (e *Engine) toInt(v frontend.Variable) *big.Int {
	z := e.el(v)
	return z.BigInt(new(big.Int))
}

// Get reads the value of a variable produced by an engine run.
func Get(v frontend.Variable) *big.Int { return (*Engine)(nil).toInt(v) }
func GetFr(v frontend.Variable) fr.Element {
	return (*Engine)(nil).el(v)
}

func New(x fr.Element) frontend.Variable { return &Val{V: x} }
func U(x uint64) frontend.Variable       { return &Val{V: fr.NewElement(x)} }
func B(x *big.Int) frontend.Variable {
	var z fr.Element
	z.SetBigInt(x)
	return &Val{V: z}
}

func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Add", append([]frontend.Variable{i1, i2}, in...)...)
	}
	r := e.out()
	var t fr.Element
	e.ld(&r.V, i1)
	e.ld(&t, i2)
	r.V.Add(&r.V, &t)
	for _, v := range in {
		e.ld(&t, v)
		r.V.Add(&r.V, &t)
	}
	return r
}
func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("MulAcc", a, b, c)
	}
	r := e.out()
	var t fr.Element
	e.ld(&r.V, b)
	e.ld(&t, c)
	r.V.Mul(&r.V, &t)
	e.ld(&t, a)
	r.V.Add(&r.V, &t)
	return r
}
func (e *Engine) Neg(a frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Neg", a)
	}
	r := e.out()
	e.ld(&r.V, a)
	r.V.Neg(&r.V)
	return r
}
func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Sub", append([]frontend.Variable{i1, i2}, in...)...)
	}
	r := e.out()
	var t fr.Element
	e.ld(&r.V, i1)
	e.ld(&t, i2)
	r.V.Sub(&r.V, &t)
	for _, v := range in {
		e.ld(&t, v)
		r.V.Sub(&r.V, &t)
	}
	return r
}
func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Mul", append([]frontend.Variable{i1, i2}, in...)...)
	}
	r := e.out()
	var t fr.Element
	e.ld(&r.V, i1)
	e.ld(&t, i2)
	r.V.Mul(&r.V, &t)
	for _, v := range in {
		e.ld(&t, v)
		r.V.Mul(&r.V, &t)
	}
	return r
}
func (e *Engine) DivUnchecked(a, b frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("DivUnchecked", a, b)
	}
	r := e.out()
	var t fr.Element
	e.ld(&r.V, a)
	e.ld(&t, b)
	if t.IsZero() {
		if !r.V.IsZero() {
			e.fail("division by zero")
		}
		return r
	}
	t.Inverse(&t)
	r.V.Mul(&r.V, &t)
	return r
}
func (e *Engine) Div(a, b frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Div", a, b)
	}
	t := e.el(b)
	if t.IsZero() {
		e.fail("division by zero")
	}
	return e.DivUnchecked(a, b)
}
func (e *Engine) Inverse(a frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Inverse", a)
	}
	r := e.out()
	e.ld(&r.V, a)
	if r.V.IsZero() {
		e.fail("inverse of zero")
	}
	r.V.Inverse(&r.V)
	return r
}
func (e *Engine) BatchInvert(in []frontend.Variable) []frontend.Variable {
	if e.slow {
		e.step("BatchInvert", in...)
	}
	xs := make([]fr.Element, len(in))
	for i := range in {
		e.ld(&xs[i], in[i])
		if xs[i].IsZero() {
			e.fail("inverse of zero")
		}
	}
	xs = fr.BatchInvert(xs)
	out := make([]frontend.Variable, len(in))
	for i := range out {
		r := e.out()
		r.V = xs[i]
		out[i] = r
	}
	return out
}
func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := fr.Bits
	if len(n) > 0 {
		nb = n[0]
	}
	if e.slow {
		e.step("ToBinary", i1, nb)
	}
	x := e.toInt(i1)
	if x.BitLen() > nb {
		e.fail("ToBinary")
	}
	out := make([]frontend.Variable, nb)
	for i := range out {
		out[i] = e.mk(uint64(x.Bit(i)))
	}
	return out
}
func (e *Engine) bit(v frontend.Variable) uint64 {
	x := e.el(v)
	if x.IsZero() {
		return 0
	}
	if x.IsOne() {
		return 1
	}
	e.fail("not boolean")
	return 0
}
func (e *Engine) FromBinary(b ...frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("FromBinary", b...)
	}
	x := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		x.Lsh(x, 1)
		x.Add(x, big.NewInt(int64(e.bit(b[i]))))
	}
	r := e.out()
	r.V.SetBigInt(x)
	return r
}
func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Xor", a, b)
	}
	return e.mk(e.bit(a) ^ e.bit(b))
}
func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Or", a, b)
	}
	return e.mk(e.bit(a) | e.bit(b))
}
func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("And", a, b)
	}
	return e.mk(e.bit(a) & e.bit(b))
}
func (e *Engine) Select(b, i1, i2 frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Select", b, i1, i2)
	}
	r := e.out()
	if e.bit(b) == 1 {
		e.ld(&r.V, i1)
	} else {
		e.ld(&r.V, i2)
	}
	return r
}
func (e *Engine) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Lookup2", b0, b1, i0, i1, i2, i3)
	}
	r := e.out()
	e.ld(&r.V, []frontend.Variable{i0, i1, i2, i3}[e.bit(b0)+2*e.bit(b1)])
	return r
}
func (e *Engine) IsZero(a frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("IsZero", a)
	}
	x := e.el(a)
	if x.IsZero() {
		return e.mk(1)
	}
	return e.mk(0)
}
func (e *Engine) Cmp(a, b frontend.Variable) frontend.Variable {
	if e.slow {
		e.step("Cmp", a, b)
	}
	r := e.out()
	r.V.SetInt64(int64(e.toInt(a).Cmp(e.toInt(b))))
	return r
}
func (e *Engine) AssertIsEqual(a, b frontend.Variable) {
	if e.slow {
		e.step("AssertIsEqual", a, b)
	}
	x, y := e.el(a), e.el(b)
	e.Constraints++
	if !x.Equal(&y) {
		st := ""
		if e.trace {
			st = string(debug.Stack())
		}
		panic(&Reject{Why: "AssertIsEqual", Stack: st, A: x.BigInt(new(big.Int)), B: y.BigInt(new(big.Int))})
	}
}
func (e *Engine) AssertIsDifferent(a, b frontend.Variable) {
	if e.slow {
		e.step("AssertIsDifferent", a, b)
	}
	x, y := e.el(a), e.el(b)
	if x.Equal(&y) {
		e.fail("AssertIsDifferent")
	}
}
func (e *Engine) AssertIsBoolean(a frontend.Variable) {
	if e.slow {
		e.step("AssertIsBoolean", a)
	}
	e.bit(a)
}
func (e *Engine) AssertIsLessOrEqual(v, bound frontend.Variable) {
	if e.slow {
		e.step("AssertIsLessOrEqual", v, bound)
	}
	if e.toInt(v).Cmp(e.toInt(bound)) > 0 {
		e.fail("AssertIsLessOrEqual")
	}
}
func (e *Engine) MustBeLessOrEqCst(bits []frontend.Variable, bound *big.Int, _ frontend.Variable) {
	if e.slow {
		e.step("MustBeLessOrEqCst", append([]frontend.Variable{bound}, bits...)...)
	}
	x := new(big.Int)
	for i := len(bits) - 1; i >= 0; i-- {
		x.Lsh(x, 1)
		x.Add(x, big.NewInt(int64(e.bit(bits[i]))))
	}
	if x.Cmp(bound) > 0 {
		e.fail("MustBeLessOrEqCst")
	}
}
func (e *Engine) Println(...frontend.Variable)          {}
func (e *Engine) Compiler() frontend.Compiler           { return e.outer.(frontend.Compiler) }
func (e *Engine) MarkBoolean(v frontend.Variable)       { e.bit(v) }
func (e *Engine) IsBoolean(v frontend.Variable) bool    { x := e.el(v); return x.IsZero() || x.IsOne() }
func (e *Engine) Field() *big.Int                       { return new(big.Int).Set(N) }
func (e *Engine) FieldBitLen() int                      { return fr.Bits }
func (e *Engine) Defer(cb func(api frontend.API) error) { e.deferred = append(e.deferred, cb) }
func (e *Engine) SetKeyValue(k, v any) {
	if e.kv == nil {
		e.kv = map[any]any{}
	}
	e.kv[k] = v
}
func (e *Engine) GetKeyValue(k any) any { return e.kv[k] }
func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	switch v.(type) {
	case *Val, Val:
		return nil, false
	}
	return e.toInt(v), true
}

func hintName(f solver.Hint) string {
	n := runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (e *Engine) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	in := make([]*big.Int, len(inputs))
	for i := range in {
		in[i] = e.toInt(inputs[i])
	}
	if e.slow {
		e.step("Hint "+hintName(f), append([]frontend.Variable{nbOutputs}, inputs...)...)
	}
	idx := e.nHints
	e.nHints++
	var outs []*big.Int
	if e.hinter != nil {
		outs = e.hinter.Hint(idx, hintName(f), f, in, nbOutputs)
	}
	if outs == nil {
		var why string
		outs, why = Honest(f, in, nbOutputs)
		if why != "" {
			if e.strict {
				e.fail("hint: " + why)
			}
			outs = zeros(nbOutputs)
		}
	}
	res := make([]frontend.Variable, nbOutputs)
	for i := range res {
		r := e.out()
		r.V.SetBigInt(outs[i])
		res[i] = r
	}
	return res, nil
}

func zeros(n int) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = new(big.Int)
	}
	return o
}

// Honest runs the repository's own hint function; why is non-empty when it panics or fails.
func Honest(f solver.Hint, in []*big.Int, nOut int) (outs []*big.Int, why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprint(r)
		}
	}()
	outs = zeros(nOut)
	cp := make([]*big.Int, len(in))
	for i := range in {
		cp[i] = new(big.Int).Set(in[i])
	}
	if err := f(new(big.Int).Set(N), cp, outs); err != nil {
		return outs, err.Error()
	}
	return outs, ""
}
