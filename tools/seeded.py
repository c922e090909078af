#!/usr/bin/env python3
"""seeded.py validate [ids]: in a scratch copy at /tmp, checks that each planted change builds, passes the stable tests, and that its
demo passes without and fails with it.  seeded.py checks [ids]: applies each change to /repo, runs the quick check of its property and
undoes it.  Results: /verif/tools/seeded-results.json."""
import json, os, subprocess, sys, shutil, time
V = '/verif'; S = V + '/seeded'; RES = V + '/tools/seeded-results.json'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def load(): return json.load(open(RES)) if os.path.exists(RES) else {}
def save(r): json.dump(r, open(RES, 'w'), indent=1, sort_keys=True)
def validate(i, W):
    sh(f'git -C {W} checkout -q -- . && git -C {W} clean -fdq')
    d = f'{S}/{i}'; o = {}
    p = sh(f'cd {W} && bash {d}/demo.sh', env=ENV); o['demo_clean'] = p.returncode; clean = p.stdout[-1500:] + p.stderr[-500:]
    p = sh(f'git -C {W} apply {d}/patch.diff'); assert p.returncode == 0, p.stderr
    o['build'] = sh(f'cd {W} && /usr/local/bin/go1.23 build ./...', env=ENV).returncode
    t0 = time.time(); p = sh(f'cd {W} && bash {d}/demo.sh', env=ENV); o['demo_patched'] = p.returncode; o['demo_s'] = round(time.time() - t0)
    pat = p.stdout[-1500:] + p.stderr[-500:]
    o['lost'] = load().get(i, {}).get('lost', [])
    if '-fast' not in sys.argv:
        sh(f'bash {W}.test.sh {W}.json', env=ENV)
        got = set(json.load(open(f'{W}.json'))['passed']); o['lost'] = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got)
    o['valid'] = o['demo_clean'] == 0 and o['demo_patched'] != 0 and o['build'] == 0 and not o['lost']
    if not o['valid']: print(i, o, '\nCLEAN', clean if o['demo_clean'] else '', '\nPATCHED', pat)
    else: print(i, 'valid', o['demo_s'], 's'); 
    if o['demo_patched'] and '-v' in sys.argv: print(pat)
    sh(f'git -C {W} checkout -q -- .')
    return o
def scratch(W):
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree(W + '.log', ignore_errors=True)
    sh(f'git clone -q /repo {W}')
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/log', W + '.log').replace('cd /repo', f'cd {W}')
    open(W + '.test.sh', 'w').write(t)
def main():
    mode = sys.argv[1]; ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(S))
    if mode == 'validate':
        from concurrent.futures import ThreadPoolExecutor
        import queue
        q = queue.Queue(); n = 2
        for k in range(n): W = f'/tmp/seedval{k}'; scratch(W); q.put(W)
        def one(i):
            W = q.get()
            try: return i, validate(i, W)
            finally: q.put(W)
        with ThreadPoolExecutor(n) as ex:
            for i, o in ex.map(one, ids):
                r = load(); r.setdefault(i, {}).update(o); save(r)
        for k in range(n):
            for s in ('', '.log'): shutil.rmtree(f'/tmp/seedval{k}{s}', ignore_errors=True)
            for s in ('.json', '.test.sh'):
                if os.path.exists(f'/tmp/seedval{k}{s}'): os.remove(f'/tmp/seedval{k}{s}')
    else:
        assert not sh('git -C /repo status --porcelain').stdout
        for i in ids:
            m = json.load(open(f'{S}/{i}/meta.json')); props = [m['property']] if mode == 'checks' else [f'C{k:02d}' for k in range(1, 24)]
            try:
                p = sh(f'git -C /repo apply {S}/{i}/patch.diff'); assert p.returncode == 0, p.stderr
                for prop in props:
                    t0 = time.time(); p = sh(f'cd {V} && python3 run.py {prop} quick', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
                    c = p.returncode == 1 and any(f'property={prop} ' in l for l in v)
                    r = load(); r.setdefault(i, {}).setdefault('caught', {})[prop] = [c, p.returncode, round(time.time() - t0)]; r[i]['property'] = m['property']; save(r)
                    print(i, prop, 'CAUGHT' if c else 'MISSED', p.returncode, round(time.time() - t0), v[:1], '' if p.returncode in (0, 1) else p.stdout[-800:] + p.stderr[-800:], flush=True)
            finally:
                sh('git -C /repo checkout -- .')
main()
