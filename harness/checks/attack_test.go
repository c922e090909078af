package checks

import (
	"math/big"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"verifharness/eng"
)

// hintInfo is what a recording run sees of one hint call.
type hintInfo struct {
	nOut int
	big  bool // some input does not fit 64 bits
	nIn  int
}

type recorder struct{ calls []hintInfo }

func (r *recorder) Hint(idx int, name string, f solver.Hint, in []*big.Int, nOut int) []*big.Int {
	b := false
	for _, x := range in {
		b = b || x.BitLen() > 64
	}
	r.calls = append(r.calls, hintInfo{nOut, b, len(in)})
	return eng.Lenient{}.Hint(idx, name, f, in, nOut)
}

// record lists the hint calls of a circuit under the cooperative prover.
func record(m eng.Mode, f func(api frontend.API)) []hintInfo {
	r := &recorder{}
	run(eng.Opt{Mode: m, Hinter: r, Lenient: true}, f)
	return r.calls
}

// attackAll forges every hint call of the circuit with every strategy (up to budget runs; beyond it
// the (call, strategy) pairs are sampled). check inspects an accepted run: it must fail the test if
// the result is wrong. It returns the number of forged runs and how many were accepted.
func attackAll(t *T, m eng.Mode, budget int, f func(api frontend.API), check func(what string)) (runs, accepted int) {
	calls := record(m, f)
	if len(calls) == 0 {
		return
	}
	total := 0
	for _, c := range calls {
		total += eng.NumStrategies(c.nOut)
	}
	r := mix(word.Draw(t, "advR"))
	one := func(at map[int]eng.Strategy, what string) {
		a := &eng.Adversary{At: at}
		err := run(eng.Opt{Mode: m, Hinter: a, Lenient: true}, f)
		runs++
		if err == nil && a.Fired > 0 {
			accepted++
			check(what)
		}
	}
	if total <= budget {
		for i, c := range calls {
			for k := 0; k < eng.NumStrategies(c.nOut); k++ {
				one(map[int]eng.Strategy{i: {Kind: k, R: r + uint64(i*31+k)}}, desc(i, k, c, m))
			}
		}
	} else {
		for n := 0; n < budget; n++ {
			i, c := drawCall(t, calls)
			k := intn(t, eng.NumStrategies(c.nOut), "strategy")
			one(map[int]eng.Strategy{i: {Kind: k, R: r + uint64(n)}}, desc(i, k, c, m))
		}
	}
	// pairs of forged calls
	for n := 0; n < budget/8; n++ {
		i, ci := drawCall(t, calls)
		j := i + 1 + intn(t, 4, "second")
		if j >= len(calls) {
			continue
		}
		k, l := intn(t, eng.NumStrategies(ci.nOut), "k"), intn(t, 22, "l")
		one(map[int]eng.Strategy{i: {Kind: k, R: r + uint64(n)}, j: {Kind: l, R: r ^ uint64(n)}}, desc(i, k, ci, m)+"+"+desc(j, l, calls[j], m))
	}
	return
}

// drawCall prefers calls on large values, where wrapping around the outer field is possible.
func drawCall(t *T, calls []hintInfo) (int, hintInfo) {
	i := intn(t, len(calls), "call")
	if rapid.Bool().Draw(t, "preferBig") {
		for d := 0; d < len(calls); d++ {
			if calls[(i+d)%len(calls)].big {
				i = (i + d) % len(calls)
				break
			}
		}
	}
	return i, calls[i]
}

func desc(i, k int, c hintInfo, m eng.Mode) string {
	return "hint call " + itoa(i) + " (" + itoa(c.nIn) + " in, " + itoa(c.nOut) + " out) strategy " + itoa(k) + " mode " + m.String()
}
func itoa(i int) string { return big.NewInt(int64(i)).String() }

// repair forges, equality by equality, the hints a false claim hangs on; bad is called if that succeeds.
func repair(t *T, h *H, m eng.Mode, max int, f func(api frontend.API), bad func(how string)) {
	v := uint64(intn(t, 4, "repair"))
	sat, runs, forged := eng.Repair(m, max, v, func(api frontend.API) error { f(api); return nil })
	h.Evals(runs)
	h.Class("repair-runs", runs)
	if sat {
		bad("a prover that forged " + itoa(forged) + " hints (variant " + itoa(int(v)) + ")")
	}
}
