package checks

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/eng"
	"verifharness/prove"
	"verifharness/ref"
)

// ------------------------------------------------------------------ arguments laid out in shared arrays

// vargs are all arguments of a verification.
type vargs struct {
	Common     types.CommonCircuitData
	Proof      variables.Proof
	PIs        []gl.Variable
	VD         variables.VerifierOnlyCircuitData
	Challenges variables.ProofChallenges
	PIHash     [4]gl.Variable
	InitCaps   []variables.FriMerkleCap
}

// arena moves every list reachable from a value into one array per element type, in a drawn order,
// with gaps and with spare capacity that reaches into the following lists.
type arena struct {
	r     *ref.Rng
	mem   map[reflect.Type]reflect.Value
	off   map[reflect.Type]int
	roots []reflect.Value
}

func (a *arena) count(v reflect.Value, n map[reflect.Type]int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			a.count(v.Field(i), n)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			a.count(v.Index(i), n)
		}
	case reflect.Slice:
		n[v.Type()] += v.Len() + 4
		for i := 0; i < v.Len(); i++ {
			a.count(v.Index(i), n)
		}
	}
}

func (a *arena) move(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		perm := make([]int, v.NumField())
		for i := range perm {
			perm[i] = i
		}
		for i := range perm {
			j := i + int(a.r.U64()%uint64(len(perm)-i))
			perm[i], perm[j] = perm[j], perm[i]
		}
		for _, i := range perm {
			if v.Type().Field(i).IsExported() {
				a.move(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			a.move(v.Index(i))
		}
	case reflect.Slice:
		t := v.Type()
		m, o, n := a.mem[t], a.off[t], v.Len()
		gap := []int{0, 0, 0, 1, 3}[a.r.U64()%5]
		reflect.Copy(m.Slice(o, o+n), v)
		c := m.Len()
		switch a.r.U64() % 4 {
		case 0:
			c = o + n
		case 1:
			c = o + n + gap
		}
		v.Set(m.Slice3(o, o+n, c))
		a.off[t] = o + n + gap
		for i := 0; i < n; i++ {
			a.move(v.Index(i))
		}
	}
}

func newArena(seed uint64, root any) *arena {
	a := &arena{r: ref.NewRng(seed), mem: map[reflect.Type]reflect.Value{}, off: map[reflect.Type]int{}}
	v := reflect.ValueOf(root).Elem()
	n := map[reflect.Type]int{}
	a.count(v, n)
	for t, k := range n {
		a.mem[t] = reflect.MakeSlice(t, k+8, k+8)
	}
	a.move(v)
	a.roots = append(a.roots, v)
	return a
}

// snap records every word reachable from the arrays and the roots.
func (a *arena) snap() map[string]string {
	o := map[string]string{}
	var walk func(path string, v reflect.Value, follow bool)
	walk = func(path string, v reflect.Value, follow bool) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, v.Field(i), follow)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), follow)
			}
		case reflect.Slice:
			o[path] = fmt.Sprintf("%x %d %d", v.Pointer(), v.Len(), v.Cap())
			if follow {
				for i := 0; i < v.Len(); i++ {
					walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), follow)
				}
			}
		case reflect.Interface:
			if v.IsNil() {
				o[path] = "nil"
			} else if v.CanInterface() {
				x := v.Interface()
				if p, ok := x.(*eng.Val); ok {
					o[path] = fmt.Sprintf("%p %v", p, p.V)
				} else {
					o[path] = fmt.Sprintf("%T %v", x, x)
				}
			}
		case reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint8:
			o[path] = fmt.Sprint(v.Uint())
		case reflect.Int, reflect.Int64:
			o[path] = fmt.Sprint(v.Int())
		case reflect.Bool:
			o[path] = fmt.Sprint(v.Bool())
		case reflect.String:
			o[path] = v.String()
		}
	}
	for t, m := range a.mem {
		walk("array "+t.String(), m, true)
	}
	for i, r := range a.roots {
		walk(fmt.Sprint("argument", i), r, true) // unexported lists lie outside the arrays
	}
	return o
}

func (a *arena) unchanged(t *T, before map[string]string, what string) {
	after := a.snap()
	for k, v := range before {
		if after[k] != v {
			t.Fatalf("%s changed its arguments: %s was %s, is %s", what, k, v, after[k])
		}
	}
}

func bigArgs(ct *prove.Circuit, r *prove.Result) *vargs {
	pih := ref.HashNoPad(r.PIs)
	ch := ref.GetChallenges(ct.C, pih, r.VD, r.Proof)
	h := conv.Engine.Hash(pih)
	v := &vargs{Common: conv.Common(ct.C), Proof: conv.Engine.Proof(r.Proof), PIs: conv.Engine.Gls(r.PIs), VD: conv.Engine.VD(r.VD), Challenges: conv.Engine.Challenges(ch), PIHash: h}
	v.InitCaps = []variables.FriMerkleCap{v.VD.ConstantSigmasCap, v.Proof.WiresCap, v.Proof.PlonkZsPartialProductsCap, v.Proof.QuotientPolysCap}
	return v
}

var reuseOps = []string{"verify", "verify", "challenges", "publicinputs", "plonk", "openings", "fri", "gates", "lists", "poseidon"}

func (v *vargs) do(api frontend.API, op string) {
	switch op {
	case "verify":
		verifier.NewVerifierChip(api, v.Common).Verify(v.Proof, v.PIs, v.VD)
	case "challenges":
		verifier.NewVerifierChip(api, v.Common).GetChallenges(v.Proof, v.PIHash, v.VD)
	case "publicinputs":
		verifier.NewVerifierChip(api, v.Common).GetPublicInputsHash(v.PIs)
	case "plonk":
		plonk.NewPlonkChip(api, v.Common).Verify(v.Challenges, v.Proof.Openings, v.PIHash)
	case "openings":
		fc := fri.NewChip(api, &v.Common, &v.Common.FriParams)
		fc.ToOpenings(v.Proof.Openings)
		fc.GetInstance(v.Challenges.PlonkZeta)
	case "fri":
		fc := fri.NewChip(api, &v.Common, &v.Common.FriParams)
		fc.VerifyFriProof(fc.GetInstance(v.Challenges.PlonkZeta), fc.ToOpenings(v.Proof.Openings), &v.Challenges.FriChallenges, v.InitCaps, &v.Proof.OpeningProof)
	case "gates":
		gs := make([]gates.Gate, 0, len(v.Common.GateIds))
		for _, id := range v.Common.GateIds {
			gs = append(gs, gates.GateInstanceFromId(id))
		}
		vars := gates.NewEvaluationVars(v.Proof.Openings.Constants, v.Proof.Openings.Wires, v.PIHash)
		gates.NewEvaluateGatesChip(api, gs, v.Common.NumGateConstraints, v.Common.SelectorsInfo).EvaluateGateConstraints(*vars)
	case "lists":
		c := challenger.NewChip(api)
		c.ObserveElements(v.PIs)
		c.ObserveCap(v.Proof.WiresCap)
		c.ObserveExtensionElements(v.Proof.Openings.PlonkZs)
		c.ObserveElements(v.Challenges.PlonkBetas)
		c.GetNChallenges(3)
		gl.New(api).ReduceWithPowers(v.Proof.Openings.Wires, v.Challenges.PlonkZeta)
		for _, e := range v.Proof.OpeningProof.QueryRoundProofs[0].InitialTreesProof.EvalsProofs {
			for _, x := range e.Elements {
				gl.New(api).RangeCheck(x)
			}
		}
	case "poseidon":
		verifier.NewVerifierChip(api, v.Common).GetPublicInputsHash(v.Proof.OpeningProof.QueryRoundProofs[0].InitialTreesProof.EvalsProofs[0].Elements)
	default:
		panic("HARNESS: " + op)
	}
}

func TestC17_reuse(t *testing.T) {
	Section(t, "a valid proof, its description, public inputs, challenges and caps, all lists laid out next to each other (drawn order, gaps, spare capacity reaching into the next list); 2..5 drawn operations (whole verification, challenges, identity, openings, FRI, gates, transcript), on one or on several circuits; afterwards every word of the arrays and arguments is unchanged and the same objects verify again; non-trivial: all", 160, 6000, bodyC17reuse)
}

func bodyC17reuse(t *T, h *H) {
	cfg := drawConfig(t, false)
	cfg.Queries = uni(t, 1, 2, "queries")
	ct, r := buildProof(t, cfg, prove.Cheat{})
	v := bigArgs(ct, r)
	a := newArena(seed(t), v)
	before := a.snap()
	var ops []string
	for i := uni(t, 1, 4, "ops"); i > 0; i-- {
		ops = append(ops, pick(t, reuseOps, "op"))
	}
	if rapid.Bool().Draw(t, "one circuit") {
		accept(t, eng.Native, strings.Join(ops, ","), func(api frontend.API) {
			for _, op := range ops {
				v.do(api, op)
				a.unchanged(t, before, op)
			}
		})
	} else {
		for _, op := range ops {
			accept(t, eng.Native, op, func(api frontend.API) { v.do(api, op) })
			a.unchanged(t, before, op)
		}
	}
	accept(t, eng.Native, "verification with the objects used by "+strings.Join(ops, ","), func(api frontend.API) { v.do(api, "verify") })
	a.unchanged(t, before, "verify")
	h.Case(true, fmt.Sprintf("%d operations", len(ops)), ops, descCfg(ct.C, len(r.PIs)), cfg.Seed)
}

// ------------------------------------------------------------------ interleaved circuits

// A task is a circuit with a known verdict.
type task struct {
	name string
	mode eng.Mode
	run  func(api frontend.API) error
	want bool // accepted
}

func progTask(p *program) task {
	in, out := p.inputs(), p.outputs()
	return task{name: "program " + p.String(), want: true, run: func(api frontend.API) error {
		vs := make([]frontend.Variable, len(in))
		for i := range in {
			vs[i] = eng.B(in[i])
		}
		got := p.run(api, vs)
		if len(got) != len(out) {
			return fmt.Errorf("%d values, want %d", len(got), len(out))
		}
		for i := range got {
			if eng.Get(got[i]).Cmp(out[i]) != 0 {
				return fmt.Errorf("value %d is %v, want %v", i, eng.Get(got[i]), out[i])
			}
		}
		return nil
	}}
}

// badTask is a circuit that no assignment of its hints satisfies.
func badTask(k int) task {
	return task{name: fmt.Sprint("unsatisfied ", k), want: false, run: func(api frontend.API) error {
		c := gl.New(api)
		switch k % 3 {
		case 0:
			c.RangeCheck(gl.NewVariable(eng.B(eng.P)))
		case 1:
			c.AssertIsEqual(c.Mul(gl.NewVariable(eng.U(3)), gl.NewVariable(eng.U(5))), gl.NewVariable(eng.U(16)))
		case 2:
			c.RangeCheckWithMaxBits(gl.NewVariable(eng.U(256)), 8)
		}
		return nil
	}}
}

// sched runs tasks on goroutines of which one at a time proceeds, switching after a drawn number of
// operations. A goroutine that blocks on something a waiting one holds is left aside until it reports.
func sched(r *ref.Rng, grain int, tasks []task, sums []*eng.Sum) []error {
	type co struct{ resume, back chan struct{} }
	n := len(tasks)
	cos, res, done := make([]co, n), make([]error, n), make([]bool, n)
	for i := range tasks {
		cos[i] = co{make(chan struct{}), make(chan struct{}, 1)}
		budget := 0
		i := i
		// quanta are drawn per task, so that they do not depend on timing
		q := ref.NewRng(r.U64())
		draw := func() int { return 1 + int(q.U64()%uint64(grain)) }
		go func() {
			<-cos[i].resume
			budget = draw()
			o := eng.Opt{Mode: tasks[i].mode, Lenient: !tasks[i].want, Yield: func() {
				budget--
				if budget <= 0 {
					cos[i].back <- struct{}{}
					<-cos[i].resume
					budget = draw()
				}
			}}
			if sums != nil {
				o.Sum = sums[i]
			}
			res[i] = eng.Run(o, tasks[i].run)
			done[i] = true
			cos[i].back <- struct{}{}
		}()
	}
	ready := map[int]bool{}
	for i := range tasks {
		ready[i] = true
	}
	blocked := map[int]bool{}
	for left := n; left > 0; {
		var pickFrom []int
		for i := 0; i < n; i++ {
			if ready[i] {
				pickFrom = append(pickFrom, i)
			}
			if blocked[i] {
				select {
				case <-cos[i].back:
					delete(blocked, i)
					if done[i] {
						left--
					} else {
						ready[i] = true
					}
				default:
				}
			}
		}
		if len(pickFrom) == 0 {
			if left > 0 {
				time.Sleep(time.Millisecond)
			}
			continue
		}
		i := pickFrom[r.U64()%uint64(len(pickFrom))]
		delete(ready, i)
		cos[i].resume <- struct{}{}
		select {
		case <-cos[i].back:
			if done[i] {
				left--
			} else {
				ready[i] = true
			}
		case <-time.After(20 * time.Second):
			blocked[i] = true
		}
	}
	return res
}

func (k task) verdict(t *T, err error, where string) {
	if k.want && err != nil {
		s := ""
		if f, ok := err.(*eng.Refuse); ok {
			s = trim(f.Stack)
		}
		t.Fatalf("%s: %s must be satisfied as it is alone, but: %v\n%s", where, k.name, err, s)
	}
	if !k.want && !eng.IsReject(err) {
		t.Fatalf("%s: %s must be rejected as it is alone, but: %v", where, k.name, err)
	}
}

func drawTasks(t *T, n int) (ts []task) {
	var p *program
	for i := 0; i < n; i++ {
		switch k := intn(t, 6, "task"); {
		case k == 0 && i > 0:
			ts = append(ts, badTask(intn(t, 3, "bad")))
		case k == 1 && p != nil: // the same circuit twice
			ts = append(ts, progTask(p))
		default:
			p = drawProgram(t, uni(t, 2, 12, "ops"), intn(t, 12, "heavy") == 11)
			ts = append(ts, progTask(p))
		}
		ts[i].mode = drawMode(t)
	}
	return
}

func TestC17_interleave(t *testing.T) {
	Section(t, "2..5 circuits (random programs of library operations, repeated programs, unsatisfied circuits) evaluated on interleaved goroutines with drawn switches between single operations, native and bit-decomposition range checks mixed: each has the values and verdict it has alone, performs the sequence of operations it performs alone, and uses no variable of another; non-trivial: all", 800, 40000, bodyC17interleave)
}

func bodyC17interleave(t *T, h *H) {
	ts := drawTasks(t, uni(t, 2, 5, "circuits"))
	grain := pick(t, []int{1, 2, 5, 30, 300}, "grain")
	solo := make([]eng.Sum, len(ts))
	sums := make([]*eng.Sum, len(ts))
	for i, k := range ts {
		k.verdict(t, eng.Run(eng.Opt{Mode: k.mode, Lenient: !k.want, Sum: &solo[i]}, k.run), "alone")
		sums[i] = new(eng.Sum)
	}
	res := sched(ref.NewRng(seed(t)), grain, ts, sums)
	n := 0
	for i, k := range ts {
		k.verdict(t, res[i], "interleaved")
		if *sums[i] != solo[i] {
			t.Fatalf("%s: interleaved with others it performs %d operations (digest %x), alone %d (digest %x)", k.name, sums[i].N, sums[i].H, solo[i].N, solo[i].H)
		}
		n += solo[i].N
	}
	h.Case(true, fmt.Sprintf("%d circuits, switch every %d", len(ts), grain), n, ts[0].name)
}

func TestC17_wholes(t *testing.T) {
	Section(t, "2..3 whole verifications, of one or of different circuits, of valid and of tampered proofs, some sharing the proof objects, interleaved as above; verdicts as alone, same sequence of operations as alone; non-trivial: all", 48, 1200, bodyC17wholes)
}

func wholeTask(name string, v *vargs, want bool) task {
	return task{name: name, want: want, run: func(api frontend.API) error { v.do(api, "verify"); return nil }}
}

func bodyC17wholes(t *T, h *H) {
	var ts []task
	var v *vargs
	for i := uni(t, 2, 3, "circuits"); i > 0; i-- {
		if v == nil || rapid.IntRange(0, 2).Draw(t, "share") > 0 {
			cfg := drawConfig(t, false)
			cfg.Queries = 1
			ct, r := buildProof(t, cfg, prove.Cheat{})
			bad := rapid.IntRange(0, 3).Draw(t, "tampered") == 3
			if bad {
				tamper(t, ref.NewRng(seed(t)), ct.C, r.VD, r.Proof, &r.PIs)
				bad = ref.Verify(ct.C, r.VD, r.Proof, r.PIs) != nil
			}
			v = bigArgs(ct, r)
			ts = append(ts, wholeTask(descCfg(ct.C, len(r.PIs)), v, !bad))
		} else {
			ts = append(ts, ts[len(ts)-1])
		}
	}
	for _, k := range ts { // refusals (public inputs dropped or added) count as rejections here
		k.verdictLoose(t, eng.Run(eng.Opt{Lenient: !k.want}, k.run), "alone")
	}
	solo, sums := make([]eng.Sum, len(ts)), make([]*eng.Sum, len(ts))
	for i, k := range ts {
		eng.Run(eng.Opt{Lenient: !k.want, Sum: &solo[i]}, k.run)
		sums[i] = new(eng.Sum)
	}
	res := sched(ref.NewRng(seed(t)), pick(t, []int{20, 300, 5000}, "grain"), ts, sums)
	for i, k := range ts {
		k.verdictLoose(t, res[i], "interleaved")
		if *sums[i] != solo[i] {
			t.Fatalf("%s: interleaved with others it performs %d operations (digest %x), alone %d (digest %x)", k.name, sums[i].N, sums[i].H, solo[i].N, solo[i].H)
		}
	}
	h.Case(true, fmt.Sprintf("%d verifications", len(ts)), ts[0].name, ts[0].want)
}

func (k task) verdictLoose(t *T, err error, where string) {
	if !k.want && eng.IsRefuse(err) {
		return
	}
	k.verdict(t, err, where)
}

// The commitment-based range checker keeps its checks per circuit until the end.
func TestC17_commit(t *testing.T) {
	Section(t, "two circuits of 20000..24000 multiplications with the commitment-based range checker, interleaved with each other and with small bit-decomposition circuits; one may contain an out-of-range value; verdicts and sequence of operations as alone; non-trivial: all", 8, 160, bodyC17commit)
}

func bodyC17commit(t *T, h *H) {
	var ts []task
	for i := 0; i < 2; i++ {
		n := uni(t, 20000, 24000, "multiplications")
		bad := rapid.IntRange(0, 2).Draw(t, "bad") == 2
		at := intn(t, n, "at")
		x, y := 2+seed(t)%(ref.P-2), 2+seed(t)%(ref.P-2)
		ts = append(ts, task{name: fmt.Sprintf("commit %d bad=%v", n, bad), mode: eng.Commit, want: !bad, run: func(api frontend.API) error {
			c := gl.New(api)
			a, b := gl.NewVariable(eng.U(x)), gl.NewVariable(eng.U(y))
			for i := 0; i < n; i++ {
				a = c.MulAdd(a, b, b)
				if bad && i == at {
					c.RangeCheck(gl.NewVariable(eng.B(eng.P)))
				}
			}
			return nil
		}})
	}
	k := progTask(drawProgram(t, 4, false))
	k.mode = eng.Plain
	ts = append(ts, k)
	solo, sums := make([]eng.Sum, len(ts)), make([]*eng.Sum, len(ts))
	for i, k := range ts {
		k.verdict(t, eng.Run(eng.Opt{Mode: k.mode, Lenient: !k.want, Sum: &solo[i]}, k.run), "alone")
		sums[i] = new(eng.Sum)
	}
	res := sched(ref.NewRng(seed(t)), 2000, ts, sums)
	for i, k := range ts {
		k.verdict(t, res[i], "interleaved")
		if *sums[i] != solo[i] {
			t.Fatalf("%s: interleaved with others it performs %d operations, alone %d", k.name, sums[i].N, solo[i].N)
		}
	}
	h.Case(true, "commit", ts[0].name, ts[1].name)
}

// ------------------------------------------------------------------ identical constraint systems

func ccsHash(p *program, backend string, bulk int) (string, error) {
	ccs, err := compileProg(p, backend, bulk)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	_, err = ccs.WriteTo(&b)
	must(err)
	f := fnv.New128a()
	f.Write(b.Bytes())
	return fmt.Sprintf("%x/%d constraints/%d bytes", f.Sum(nil), ccs.GetNbConstraints(), b.Len()), nil
}

// A failing build may leave something behind, too.
type brokenCircuit struct {
	X    frontend.Variable
	kind int
}

func (c *brokenCircuit) Define(api frontend.API) error {
	g := gl.New(api)
	a := g.Mul(gl.NewVariable(c.X), gl.NewVariable(c.X))
	g.RangeCheck(a)
	if c.kind == 0 {
		return fmt.Errorf("broken")
	}
	panic("broken")
}

func TestC17_systems(t *testing.T) {
	Section(t, "2..4 random programs compiled to R1CS and to Plonk constraints in a drawn history of 6..14 builds: repeated, in any order, after builds that fail half-way, and concurrently on several goroutines; all builds of one program give the same serialised constraint system; non-trivial: all", 64, 2000, bodyC17systems)
}

func bodyC17systems(t *T, h *H) {
	var ps []*program
	for i := uni(t, 2, 4, "programs"); i > 0; i-- {
		ps = append(ps, drawProgram(t, uni(t, 1, 8, "ops"), intn(t, 20, "heavy") == 19))
	}
	type job struct {
		i int
		b string
	}
	n := uni(t, 6, 14, "builds")
	var rounds [][]job
	fail := make([]bool, n)
	for len(rounds) < n {
		var r []job
		for i := pick(t, []int{1, 1, 1, 2, 3, 4}, "together"); i > 0; i-- {
			r = append(r, job{intn(t, len(ps), "program"), pick(t, []string{"r1cs", "scs"}, "backend")})
		}
		fail[len(rounds)] = intn(t, 5, "fail") == 4
		rounds = append(rounds, r)
	}
	want := map[job]string{}
	builds := 0
	check := func(j job, s string, err error, how string) {
		if err != nil && j.b == "scs" && strings.Contains(err.Error(), "div by 0") && strings.Contains(err.Error(), "mulConstraintExist") {
			s = "excluded"
		} else if err != nil {
			t.Fatalf("%s: program does not compile: %v\n%s", j.b, err, ps[j.i])
		}
		if w, ok := want[j]; ok && w != s {
			t.Fatalf("%s, %s: the constraint system is %s, an earlier build gave %s\n%s", j.b, how, s, w, ps[j.i])
		}
		want[j] = s
		builds++
	}
	bitDecomp(func() {
		for k, r := range rounds {
			if fail[k] {
				try(func() {
					_, _ = compileAny(&brokenCircuit{kind: k % 2}, r[0].b)
				})
			}
			if len(r) == 1 {
				s, err := ccsHash(ps[r[0].i], r[0].b, 0)
				check(r[0], s, err, "built alone")
				continue
			}
			ss, es := make([]string, len(r)), make([]error, len(r))
			var wg sync.WaitGroup
			for i := range r {
				wg.Add(1)
				go func(i int) { defer wg.Done(); ss[i], es[i] = ccsHash(ps[r[i].i], r[i].b, 0) }(i)
			}
			wg.Wait()
			for i := range r {
				check(r[i], ss[i], es[i], "built concurrently")
			}
		}
	})
	h.Evals(builds - 1)
	h.Case(true, fmt.Sprintf("%d programs", len(ps)), ps[0].String())
}

// Whole verifiers, through the digest of the operations they perform.
func TestC17_repeat(t *testing.T) {
	Section(t, "the whole verifier of a random configuration built three times in native mode, from fresh objects, with another verifier in between: same sequence of operations, wired the same way; non-trivial: all", 80, 2400, bodyC17repeat)
}

func bodyC17repeat(t *T, h *H) {
	cfg := drawConfig(t, false)
	cfg.Queries = uni(t, 1, 2, "queries")
	ct, r := buildProof(t, cfg, prove.Cheat{})
	other := drawConfig(t, false)
	other.Queries = 1
	ot, o := buildProof(t, other, prove.Cheat{})
	var first eng.Sum
	for i := 0; i < 3; i++ {
		var s eng.Sum
		if err := run(eng.Opt{Sum: &s}, whole(ct.C, r.VD, r.Proof, r.PIs)); err != nil {
			t.Fatalf("build %d is not satisfied: %v\n%s", i, err, descCfg(ct.C, len(r.PIs)))
		}
		if i == 0 {
			first = s
			if err := run(eng.Opt{}, whole(ot.C, o.VD, o.Proof, o.PIs)); err != nil {
				t.Fatalf("not satisfied: %v\n%s", err, descCfg(ot.C, len(o.PIs)))
			}
		} else if s != first {
			t.Fatalf("build %d performs %d operations (digest %x), the first %d (digest %x)\n%s", i, s.N, s.H, first.N, first.H, descCfg(ct.C, len(r.PIs)))
		}
	}
	h.Case(true, "native", descCfg(ct.C, len(r.PIs)), cfg.Seed, first)
}

// ------------------------------------------------------------------ goroutines under the race detector

// Run by the race-detecting build only: see run.py.
func TestC17_race(t *testing.T) {
	Section(t, "3..6 goroutines at a time, built with the race detector: compilations of random programs, evaluations of random programs, unsatisfied circuits, and whole verifications that share proof and description objects laid out next to each other; no data race, verdicts and constraint systems as alone; non-trivial: all", 48, 800, bodyC17race)
}

func bodyC17race(t *T, h *H) {
	cfg := drawConfig(t, false)
	cfg.Queries, cfg.DegreeB, cfg.Arities, cfg.RateB = 1, 2, nil, 3
	ct, r := buildProof(t, cfg, prove.Cheat{})
	v := bigArgs(ct, r)
	newArena(seed(t), v)
	p := drawProgram(t, uni(t, 1, 6, "ops"), false)
	b := pick(t, []string{"r1cs", "scs"}, "backend")
	type act struct {
		kind string
		k    task
	}
	var acts []act
	// compilation needs the environment variable that selects bit decomposition, which makes verifications slow
	env, kindsOf := bitDecomp, []string{"compile", "compile", "program", "bad"}
	if rapid.Bool().Draw(t, "verify") {
		env, kindsOf = quiet, []string{"verify", "verify", "op", "program", "bad"}
	}
	for i := uni(t, 3, 6, "goroutines"); i > 0; i-- {
		switch kind := pick(t, kindsOf, "kind"); kind {
		case "verify":
			acts = append(acts, act{kind, wholeTask("verify", v, true)})
		case "op":
			op := pick(t, reuseOps[2:], "op")
			acts = append(acts, act{op, task{name: op, want: true, run: func(api frontend.API) error { v.do(api, op); return nil }}})
		case "compile":
			acts = append(acts, act{kind, task{}})
		case "program":
			acts = append(acts, act{kind, progTask(drawProgram(t, uni(t, 1, 8, "ops"), false))})
		case "bad":
			acts = append(acts, act{kind, badTask(intn(t, 3, "bad"))})
		}
	}
	env(func() {
		var want string
		var werr error
		if kindsOf[0] == "compile" {
			want, werr = ccsHash(p, b, 0)
		}
		res, hs := make([]error, len(acts)), make([]string, len(acts))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, a := range acts {
			wg.Add(1)
			go func(i int, a act) {
				defer wg.Done()
				<-start
				runtime.Gosched()
				if a.kind == "compile" {
					hs[i], res[i] = ccsHash(p, b, 0)
				} else {
					res[i] = eng.Run(eng.Opt{Mode: a.k.mode, Lenient: !a.k.want}, a.k.run)
				}
			}(i, a)
		}
		close(start)
		wg.Wait()
		for i, a := range acts {
			if a.kind == "compile" {
				if hs[i] != want || (res[i] == nil) != (werr == nil) {
					t.Fatalf("%s: concurrent compilation gives %s %v, alone %s %v\n%s", b, hs[i], res[i], want, werr, p)
				}
				continue
			}
			a.k.verdict(t, res[i], "concurrent")
		}
	})
	kinds := []string{}
	for _, a := range acts {
		kinds = append(kinds, a.kind)
	}
	h.Case(true, fmt.Sprintf("%d goroutines", len(acts)), kinds, p.String(), cfg.Seed)
}

// The building code alone: nothing is computed, so goroutines are rarely ordered by the arithmetic.
func TestC17_build_race(t *testing.T) {
	Section(t, "4..8 goroutines at a time, built with the race detector, each building one of 2..3 whole verifiers of random configurations or a part of one (identity, FRI, gates, transcript), 2..4 times in a row, from shared objects, on an API that computes no value: no data race, and every build performs the operations it performs alone, wired the same way; non-trivial: all", 64, 2400, bodyC17build)
}

func bodyC17build(t *T, h *H) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(8))
	var vs []*vargs
	for i := uni(t, 2, 3, "verifiers"); i > 0; i-- {
		cfg := drawConfig(t, false)
		cfg.Queries = uni(t, 1, 3, "queries")
		ct, r := buildProof(t, cfg, prove.Cheat{})
		v := bigArgs(ct, r)
		newArena(seed(t), v)
		vs = append(vs, v)
	}
	type act struct {
		v    int
		op   string
		reps int
	}
	var acts []act
	same := pick(t, append([]string{""}, reuseOps...), "same operation everywhere")
	for i := uni(t, 4, 8, "goroutines"); i > 0; i-- {
		a := act{intn(t, len(vs), "verifier"), pick(t, reuseOps, "op"), uni(t, 2, 4, "times")}
		if same != "" {
			a.op = same
		}
		acts = append(acts, a)
	}
	quiet(func() {
		do := func(a act) (eng.Sum, error) {
			return eng.RunBlank(func(api frontend.API) error { vs[a.v].do(api, a.op); return nil })
		}
		want := make([]eng.Sum, len(acts))
		for i, a := range acts {
			var err error
			if want[i], err = do(a); err != nil {
				t.Fatalf("%s cannot be built: %v", a.op, err)
			}
		}
		errs := make([]string, len(acts))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, a := range acts {
			wg.Add(1)
			go func(i int, a act) {
				defer wg.Done()
				<-start
				for k := 0; k < a.reps; k++ {
					s, err := do(a)
					if err != nil {
						errs[i] = err.Error()
					} else if s != want[i] {
						errs[i] = fmt.Sprintf("%d operations (digest %x), alone %d (digest %x)", s.N, s.H, want[i].N, want[i].H)
					}
				}
			}(i, a)
		}
		close(start)
		wg.Wait()
		for i, e := range errs {
			if e != "" {
				t.Fatalf("%s, built concurrently with others: %s", acts[i].op, e)
			}
		}
	})
	h.Case(true, fmt.Sprintf("%d goroutines", len(acts)), acts)
}
