#!/usr/bin/env python3
"""Author and confirm planted changes.  usage: seed.py [--only id,..] [--test] [--check] [--defs file]
Works in clones of /repo under /tmp/wt; writes /verif/seeded/<id>/ for those given."""
import sys, os, json, shutil, subprocess, argparse, runpy, re
V = '/verif'
p = argparse.ArgumentParser()
p.add_argument('--only'); p.add_argument('--test', action='store_true'); p.add_argument('--check', action='store_true')
p.add_argument('--demo', action='store_true')
p.add_argument('--prop'); p.add_argument('--defs', default=f'{V}/tools/seeds_def.py'); p.add_argument('--workers', default='4')
a = p.parse_args()
S = runpy.run_path(a.defs)['S']
if a.only: S = [s for s in S if s['id'] in a.only.split(',')]
DEMO_SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export NUMBA_CACHE_DIR="$w/nb" PYTHONPYCACHEPREFIX="$w/pyc" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore "$d/demo.py"
'''
def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)
stable = json.load(open('/opt/vp/BASELINE.json'))
def one(s):
    out = {'id': s['id'], 'prop': s['prop']}
    d = f'/tmp/wt/{s["id"]}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/wt', exist_ok=True)
    run(['git', 'clone', '-q', '/repo', d], check=True)
    for f, old, new, occ in s['edits']:
        t = open(f'{d}/{f}').read()
        n = t.count(old)
        if n == 0: out['error'] = f'no match in {f}'; return out
        if n > 1 and occ is None: out['error'] = f'{n} matches in {f}'; return out
        if occ:
            parts = t.split(old); t = old.join(parts[:occ]) + new + old.join(parts[occ:])
        else: t = t.replace(old, new)
        open(f'{d}/{f}', 'w').write(t)
    diff = run(['git', '-C', d, 'diff']).stdout
    # removed lines must be the original repository's
    for f, *_ in s['edits']:
        bl = run(['git', '-C', d, 'diff', '-U0', f]).stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', bl, re.M):
            st, n = int(m[1]), int(m[2] or 1)
            if n == 0: continue
            b = run(['git', '-C', d, 'blame', '-s', '-L', f'{st},{st+n-1}', 'HEAD', '--', f]).stdout
            for l in b.splitlines():
                if not l.lstrip('^').startswith('1c8b70e'): out.setdefault('mine', []).append(l[:120])
    sd = f'{V}/seeded/{s["id"]}'; os.makedirs(sd, exist_ok=True)
    open(f'{sd}/patch.diff', 'w').write(diff)
    open(f'{sd}/demo.sh', 'w').write(DEMO_SH); os.chmod(f'{sd}/demo.sh', 0o755)
    open(f'{sd}/demo.py', 'w').write('import numpy as np\nimport quaternion\nimport spherical_functions as sf\n' + s['demo'].lstrip('\n'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{sd}/meta.json', 'w'), indent=1)
    if a.demo:
        r0 = run(['bash', f'{sd}/demo.sh'], cwd='/repo'); r1 = run(['bash', f'{sd}/demo.sh'], cwd=d)
        out['demo'] = (r0.returncode, r1.returncode)
        if r0.returncode: out['demo0'] = r0.stderr[-300:]
        if not r1.returncode: out['demo1'] = 'not failing'
        else: out['demo1'] = r1.stderr.strip().splitlines()[-1][:150] if r1.stderr.strip() else ''
    if a.check:
        c = a.prop or s['prop']
        res = {}
        for q in c.split(','):
            r = run([f'{V}/check.sh', q], env=dict(os.environ, VP_REPO=d, VERIF_SEED='1', VP_EVID=f'/tmp/seedwork/{s["id"]}'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res[q] = (r.returncode, len(v), (r.stdout[-200:] if r.returncode not in (0, 1) else ''))
        out['check'] = res
    if a.test:
        w = f'/tmp/wt/{s["id"]}.t'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        env = dict(os.environ, NUMBA_CACHE_DIR=w+'/nb', PYTHONPYCACHEPREFIX=w+'/pyc', PYTHONPATH='/opt/vp/plugin:'+d)
        passed = set(); 
        run(['/opt/venv/bin/python', '-c', 'import spherical_functions'], cwd=d, env=env)
        for nm, args in (('slow', ['-n', a.workers, '--run_slow_tests', '-m', 'slow', '--timeout=700']), ('main', ['-n', a.workers, '-m', 'not slow', '--timeout=300'])):
            r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-rA', '--tb=no', *args, 'tests'], cwd=d, env=env)
            for l in r.stdout.splitlines():
                m = re.match(r'PASSED (\S+::\S+.*)$', l)
                if m: passed.add(m[1].strip())
        names = stable.get('stable') or stable
        names = [n if isinstance(n, str) else n.get('id') for n in names]
        out['missing'] = [n for n in names if n not in passed]
        out['npassed'] = len(passed)
        shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return out
for s in S:
    try: o = one(s)
    except Exception as e: o = {'id': s['id'], 'error': repr(e)}
    print(json.dumps(o), flush=True)
