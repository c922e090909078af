// Package checks holds the generated-input checks, one group of Test<ID>_<section> functions per
// property. run.py shards, seeds and collects them.
package checks

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"

	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/ref"
)

type T = rapid.T

// H collects what a section covered.
type H struct {
	mu      sync.Mutex
	name    string
	evals   int
	keys    map[uint64]struct{}
	classes map[string]int
	samples []string
	seen    map[string]bool
	rule    string
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Count scales a quick case count to the tier and this shard.
func Count(quick, thor int) int {
	n := quick
	if thorough() {
		n = thor
	}
	sh := envInt("VERIF_SHARDS", 1)
	n = (n + sh - 1) / sh
	if n < 1 {
		n = 1
	}
	return n
}

// Case counts one generated case. key identifies it, class labels it.
func (h *H) Case(nontrivial bool, class string, key ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	h.classes[class]++
	if nontrivial {
		s := sha256.Sum256([]byte(class + fmt.Sprint(key...)))
		h.keys[binary.LittleEndian.Uint64(s[:])] = struct{}{}
	}
	if !h.seen[class] && len(h.samples) < 12 {
		h.seen[class] = true
		v := fmt.Sprint(key...)
		if len(v) > 300 {
			v = v[:300] + "…"
		}
		h.samples = append(h.samples, h.name+" "+class+": "+v)
	}
}

func (h *H) Evals(n int) { h.mu.Lock(); h.evals += n; h.mu.Unlock() }
func (h *H) Class(c string, n int) {
	h.mu.Lock()
	h.classes[c] += n
	h.mu.Unlock()
}

// Section runs prop over generated cases and writes this shard's coverage.
func Section(t *testing.T, rule string, quick, thor int, prop func(t *T, h *H)) {
	n := Count(quick, thor)
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		n = envInt("VERIF_CHECKS", n)
	}
	if f := flag.Lookup("rapid.failfile"); f != nil && f.Value.String() != "" {
		n = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	h := &H{name: t.Name(), keys: map[uint64]struct{}{}, classes: map[string]int{}, seen: map[string]bool{}, rule: rule}
	defer h.write(t)
	rapid.Check(t, func(rt *rapid.T) { prop(rt, h) })
}

func (h *H) write(t *testing.T) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		if testing.Verbose() {
			fmt.Println(h.name, h.evals, len(h.keys), h.classes)
			for _, s := range h.samples {
				fmt.Println("   ", s)
			}
		}
		return
	}
	ks := make([]string, 0, len(h.keys))
	for k := range h.keys {
		ks = append(ks, strconv.FormatUint(k, 16))
	}
	b, err := json.Marshal(map[string]any{"section": h.name, "rule": h.rule, "evaluations": h.evals, "keys": ks, "classes": h.classes, "samples": h.samples})
	must(err)
	must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("part-%s-%d.json", h.name, envInt("VERIF_SHARD", 0))), b, 0o644))
}

func must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

// ------------------------------------------------------------------ generators

var (
	boundary = rapid.SampledFrom(ref.Boundary)
	word     = rapid.Uint64()
)

// intn draws uniformly from [0,n): rapid's own ranges are biased towards small values.
func intn(t *T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	// small values shrink first
	return rapid.Custom(func(t *T) int {
		v := rapid.Uint64Range(0, 1<<20-1).Draw(t, "v")
		_ = v
		return int(mix(v) % uint64(n))
	}).Draw(t, label)
}

func between(t *T, lo, hi int, label string) int { return lo + rapid.IntRange(0, hi-lo).Draw(t, label) }

// uni draws uniformly from [lo,hi].
func uni(t *T, lo, hi int, label string) int { return lo + intn(t, hi-lo+1, label) }

func mix(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	r := ref.NewRng(x)
	return r.U64()
}

func seed(t *T) uint64 { return mix(word.Draw(t, "seed")) }

// felt draws a canonical Goldilocks element: a boundary value, a small one, or a uniform one.
func felt(t *T, label string) uint64 {
	return rapid.Custom(func(t *T) uint64 {
		switch k := rapid.IntRange(0, 7).Draw(t, "kind"); {
		case k <= 1:
			return boundary.Draw(t, "b")
		case k == 2:
			return rapid.Uint64Range(0, 1<<32).Draw(t, "small")
		case k == 3:
			return ref.P - 1 - rapid.Uint64Range(0, 1<<32).Draw(t, "large")
		default:
			return mix(word.Draw(t, "w")) % ref.P
		}
	}).Draw(t, label)
}
func ext(t *T, label string) ref.E {
	e := ref.E{felt(t, label+"0"), felt(t, label+"1")}
	switch rapid.IntRange(0, 15).Draw(t, label+"k") {
	case 14:
		e[1] = 0
	case 15:
		e[0] = 0
	}
	return e
}
func algel(t *T, label string) ref.A { return ref.A{ext(t, label+"a"), ext(t, label+"b")} }

func pick[X any](t *T, xs []X, label string) X { return xs[intn(t, len(xs), label)] }

// ------------------------------------------------------------------ running

func run(o eng.Opt, f func(api frontend.API)) error {
	return eng.Run(o, func(api frontend.API) error { f(api); return nil })
}

// accept runs f honestly; a rejection or refusal is a failure.
func accept(t *T, m eng.Mode, what string, f func(api frontend.API)) {
	if err := run(eng.Opt{Mode: m}, f); err != nil {
		if r, ok := err.(*eng.Refuse); ok {
			t.Fatalf("%s [%v]: must be accepted, but: %v\n%s", what, m, err, trim(r.Stack))
		}
		t.Fatalf("%s [%v]: must be accepted, but: %v", what, m, err)
	}
}

func trim(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// drawMode picks the range-check mechanism of small circuits.
func drawMode(t *T) eng.Mode {
	return pick(t, []eng.Mode{eng.Native, eng.Native, eng.Plain}, "mode")
}

// try runs f and returns its panic, if any.
func try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}
