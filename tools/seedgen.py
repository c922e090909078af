#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeddefs*.py: patch.diff against /repo's HEAD, demo.sh, demo files, meta.json."""
import json, os, subprocess, sys, tempfile, shutil, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '..', 'seeded')

PRELUDE = r'''package PKG

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
)

// demoAPI is the test engine with some hints replaced by a prover's own. It has neither a native range
// checker nor commitments, so range checks are by bit decomposition.
type demoAPI struct {
	frontend.API
	hints map[string]solver.Hint
}

type demoCompiler struct {
	frontend.Compiler
	hints map[string]solver.Hint
}

type demoLess interface {
	MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, aForDebug frontend.Variable)
}

func (c *demoCompiler) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, v frontend.Variable) {
	c.Compiler.(demoLess).MustBeLessOrEqCst(aBits, bound, v)
}

func (a *demoAPI) Compiler() frontend.Compiler { return &demoCompiler{a.API.Compiler(), a.hints} }

func (c *demoCompiler) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	name := solver.GetHintName(f)
	name = name[strings.LastIndex(name, ".")+1:]
	if g := c.hints[name]; g != nil {
		f = g
	}
	return c.Compiler.NewHint(f, n, in...)
}

type demoCircuit struct{ X frontend.Variable }

var demoF func(frontend.API)
var demoH map[string]solver.Hint

func (c *demoCircuit) Define(api frontend.API) error {
	demoF(&demoAPI{api, demoH})
	return nil
}

// demoRun evaluates f; an unsatisfied constraint or a panic is an error.
func demoRun(h map[string]solver.Hint, f func(api frontend.API)) error {
	demoF, demoH = f, h
	return test.IsSolved(&demoCircuit{X: 0}, &demoCircuit{X: 0}, ecc.BN254.ScalarField())
}

func demoVal(api frontend.API, v frontend.Variable) *big.Int {
	x, _ := api.Compiler().ConstantValue(v)
	return new(big.Int).Set(x)
}

var demoP = new(big.Int).SetUint64(18446744069414584321)
var demoR = ecc.BN254.ScalarField()

// a MulAdd hint that does not mind operands outside the field
func demoMulAdd(_ *big.Int, in []*big.Int, out []*big.Int) error {
	x := new(big.Int).Mul(in[0], in[1])
	x.Add(x, in[2]).Mod(x, demoR)
	out[0].DivMod(x, demoP, out[1])
	return nil
}

// a split that does not mind values outside the field
func demoSplit(_ *big.Int, in []*big.Int, out []*big.Int) error {
	out[0].Rsh(in[0], 32)
	out[1].Sub(in[0], new(big.Int).Lsh(out[0], 32))
	return nil
}

func demoSeed() func() uint64 {
	s := uint64(88172645463325252)
	return func() uint64 {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return s % demoP.Uint64()
	}
}

var _ = fmt.Sprint
var _ *testing.T
'''

DEMO_SH = r'''#!/bin/bash
# cwd: the repository. Runs demo_test.go inside package PKGDIR through an overlay; exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {FILES}}
EOF
unset USE_BIT_DECOMPOSITION_RANGE_CHECK
/usr/local/bin/go1.23 test -vet=off -count=1 -timeout 280s EXTRA-overlay "$tmp/overlay.json" -run 'TestZZDemo' ./PKGDIR
'''

def load():
    defs = []
    for f in sorted(glob.glob(os.path.join(here, 'seeddefs*.py'))):
        spec = importlib.util.spec_from_file_location('d', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        defs += m.DEFS
    assert len({d['id'] for d in defs}) == len(defs)
    return defs

def gen(d):
    folder = os.path.join(out, d['id'])
    shutil.rmtree(folder, ignore_errors=True); os.makedirs(folder)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {tmp}; cd {tmp}; git init -q; git add -A; git -c user.email=a@b -c user.name=a commit -qm x', shell=True, check=True)
        for f, old, new in d['edits']:
            p = os.path.join(tmp, f); s = open(p).read()
            assert s.count(old) == 1, (d['id'], f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        for f in {e[0] for e in d['edits']}:
            r = subprocess.run(['gofmt', '-l', os.path.join(tmp, f)], capture_output=True, text=True)
            if r.stdout or r.stderr: print('gofmt', d['id'], r.stdout, r.stderr)
        diff = subprocess.run(['git', '-C', tmp, 'diff'], capture_output=True, text=True, check=True).stdout
        assert diff
        open(os.path.join(folder, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    pkg = d['pkg']; name = d.get('pkgname', pkg.split('/')[-1])
    files = {}
    if d.get('prelude', True):
        open(os.path.join(folder, 'prelude_test.go'), 'w').write(PRELUDE.replace('PKG', name))
        files['zz_prelude_test.go'] = 'prelude_test.go'
    body = 'package %s\n\n%s' % (name, d['demo'].lstrip('\n'))
    open(os.path.join(folder, 'demo_test.go'), 'w').write(body)
    r = subprocess.run(['gofmt', '-w', os.path.join(folder, 'demo_test.go')], capture_output=True, text=True)
    if r.stderr: print(d['id'], r.stderr)
    files['zz_demo_test.go'] = 'demo_test.go'
    fs = ', '.join('"$PWD/%s/%s": "$here/%s"' % (pkg, k, v) for k, v in files.items()).replace('/./', '/')
    sh = DEMO_SH.replace('FILES', fs).replace('PKGDIR', pkg).replace('EXTRA', d.get('flags', ''))
    open(os.path.join(folder, 'demo.sh'), 'w').write(sh); os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(folder, 'meta.json'), 'w'), indent=1)

if __name__ == '__main__':
    want = sys.argv[1:]
    for d in load():
        if not want or d['id'] in want: gen(d)
