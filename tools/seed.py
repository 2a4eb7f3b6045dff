#!/usr/bin/env python3
"""Plant one bug: python3 tools/seed.py SPEC.py   (SPEC defines id, property, edits=[(file, old, new)], needs, breaks, demo, flags)
Works in a scratch copy of /repo; keeps the bug under seeded/<id>/ only when it builds, passes the stable tests and its
demonstration fails with it and passes without it."""
import json, os, runpy, shutil, subprocess as sp, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles the demonstration against the headers in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -DNDEBUG -DDPM_INLINE_EXTENSIONS -DDPM_HANDLE_ERRORS -DDPM_PROPAGATE_NAN -I"$PWD" %s "$d/demo.cpp" -o "$t/demo" || exit 2
"$t/demo"
'''
def run(*a, **k): return sp.run(a, capture_output=True, text=True, **k)
def plant(s, keep=None):
    S = '/tmp/seedwork'
    w = S + '/repo'
    if not os.path.isdir(w):
        os.makedirs(S, exist_ok=True); run('cp', '-a', '/repo', w)
    run('git', '-C', w, 'fetch', '-q', '/repo', 'HEAD'); run('git', '-C', w, 'reset', '-q', '--hard', 'FETCH_HEAD')
    base = run('git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD').stdout.strip()
    d = f'{S}/{s["id"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'].strip() + '\n')
    for f, o, n in s['edits']:
        t = open(f'{w}/{f}').read()
        if t.count(o) != s.get('count', 1): return f'{f}: {t.count(o)} matches of {o!r}'
    r = run(d + '/demo.sh', cwd=w)
    if r.returncode: return f'demo fails on the clean tree: rc {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}'
    for f, o, n in s['edits']:
        t = open(f'{w}/{f}').read(); open(f'{w}/{f}', 'w').write(t.replace(o, n))
    open(d + '/patch.diff', 'w').write(run('git', '-C', w, 'diff').stdout)
    # the changed lines must be lines of the original repository
    for f in {e[0] for e in s['edits']}:
        old = open(f'/repo/{f}').read().split('\n')
        for l in run('git', '-C', w, 'diff', '-U0', f).stdout.split('\n'):
            if l.startswith('@@'):
                a, _, c = l.split()[1][1:].partition(','); a = int(a); c = int(c or 1)
                for i in range(a, a + c):
                    b = run('git', '-C', '/repo', 'blame', '-s', '-l', '-L', f'{i},{i}', f).stdout
                    if not b.startswith('^' + base[:39]) and base[:30] not in b: return f'{f}:{i} is not an original line: {b}'
    r = run(d + '/demo.sh', cwd=w)
    if not r.returncode or r.returncode == 2: return f'demo rc {r.returncode} with the patch {r.stderr[-800:]}'
    if not s.get('skip_tests'):
        # build and test in the scratch copy through a private mount-free trick: swap is not needed, /opt/vp works on /repo
        if run('git', '-C', '/repo', 'status', '--porcelain').stdout.strip(): return '/repo is not clean'
        try:
            p = run('git', '-C', '/repo', 'apply', d + '/patch.diff')
            if p.returncode: return 'patch does not apply ' + p.stderr
            out = f'{S}/out.json'
            t = run('bash', '/opt/vp/test.sh', out)
            j = json.load(open(out)); b = json.load(open('/opt/vp/BASELINE.json'))
            def names(x): return x
            ok = set(j.get('passed', j.get('pass', [])))
            want = set(b.get('stable', b.get('passed', b.get('tests', []))))
            if not want or want - ok: return f'tests: want {len(want)} missing {sorted(want - ok)[:5]} keys {list(j)} {list(b)} {t.stdout[-800:]}'
        finally:
            run('git', '-C', '/repo', 'checkout', '--', '.')
    o = f'{V}/seeded/{s["id"]}'; shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
    return None
if __name__ == '__main__':
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)['SEEDS']:
            if os.environ.get('ONLY') and os.environ['ONLY'] != s['id']: continue
            e = plant(s); print(s['id'], 'REJECTED ' + e if e else 'kept', flush=True)
