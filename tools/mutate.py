#!/usr/bin/env python3
"""Systematic small changes to the code, to look for what the checks miss (not part of any registered check).
usage: mutate.py FILE OUT.jsonl [--jobs n] [--procs n] [--sample k] [--seed s] [--checks C01,C02] [--lines a-b]
Each mutant is put into a copy of /repo under /tmp/mut/<slot>; the checks mapped to the file run on it, stopping at the first that reports."""
import warnings; warnings.simplefilter("ignore")
import ast, sys, os, json, subprocess, argparse, random, shutil, queue, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 '__init__.py': 'C09 C10 C04 C23', 'mode_conversions.py': 'C18 C12 C17 C24', 'multiplication.py': 'C12 C28 C29 C23',
 'SWSH/__init__.py': 'C05 C06 C03 C19 C17 C23 C24', 'SWSH_grids/__init__.py': 'C20 C19 C14 C26 C27 C24', 'SWSH_grids/algebra.py': 'C20 C14 C26 C27 C24',
 'SWSH_grids/ufuncs.py': 'C20 C14 C15 C26 C27 C24', 'SWSH_grids/utilities.py': 'C20 C19 C28 C24',
 'SWSH_modes/__init__.py': 'C11 C14 C19 C24', 'SWSH_modes/algebra.py': 'C13 C12 C14 C11 C15 C24', 'SWSH_modes/derivatives.py': 'C16 C17 C14 C24',
 'SWSH_modes/ufuncs.py': 'C15 C13 C14 C12 C11 C26 C27 C24', 'SWSH_modes/utilities.py': 'C11 C19 C14 C13 C28 C24',
 'WignerD/WignerDRecursion.py': 'C25 C21 C02 C23 C24', 'WignerD/__init__.py': 'C01 C03 C04 C02 C29 C09 C23 C24',
 'recursions/__init__.py': 'C21 C25', 'recursions/complex_powers.py': 'C22 C23 C24', 'recursions/wigner3j.py': 'C07 C08 C23 C24', 'recursions/wignerH.py': 'C21 C25 C23 C24'}
PURE = ('SWSH_modes', 'SWSH_grids')
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Pow: ['*'], ast.Mod: ['//'], ast.MatMult: [],
       ast.BitAnd: ['|'], ast.BitOr: ['&']}

def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno-1] + n.col_offset, off[n.end_lineno-1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    def add(n, text, what): out.append((n.lineno, pos(n), text, what))
    def walk(n, infn, skip):
        if isinstance(n, ast.Raise): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str): return
        if isinstance(n, ast.FunctionDef) and n.name in ('rotate',): return
        if isinstance(n, (ast.Import, ast.ImportFrom)): return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []): add(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
            elif isinstance(n, ast.Compare):
                for i, op in enumerate(n.ops):
                    for o in CMP.get(type(op), [])[:1]:
                        items = [n.left] + n.comparators
                        ops = [b[pos(items[k])[1]:pos(items[k+1])[0]].decode() for k in range(len(n.ops))]
                        ops[i] = ' %s ' % o
                        add(n, seg(items[0]) + ''.join(x + seg(y) for x, y in zip(ops, items[1:])), 'cmp')
            elif isinstance(n, ast.BinOp):
                for o in BIN.get(type(n.op), []): add(n, '(%s) %s (%s)' % (seg(n.left), o, seg(n.right)), 'bin')
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and not isinstance(n.right, ast.Constant): add(n, '(%s)' % seg(n.left), 'dropr')
            elif isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
                for k in range(len(n.values)):
                    add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != k) + ')', 'dropcond')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
                add(n, '(%s)' % seg(n.operand), 'unary')
            elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
                v = n.value
                if v is True or v is False: add(n, str(not v), 'const')
                elif isinstance(v, int): add(n, '(%d)' % (v+1), 'const'); add(n, '(%d)' % (v-1), 'const')
                elif isinstance(v, float): add(n, '(%r)' % (v*2+1), 'const')
            elif isinstance(n, ast.Call):
                if len(n.args) == 1 and not n.keywords: add(n, '(%s)' % seg(n.args[0]), 'unwrap')
                for k in n.keywords:
                    if k.arg:
                        rest = [seg(x) for x in n.args] + [('%s=%s' % (q.arg, seg(q.value)) if q.arg else '**' + seg(q.value)) for q in n.keywords if q is not k]
                        add(n, '%s(%s)' % (seg(n.func), ', '.join(rest)), 'dropkw')
                if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'): add(n.func, 'max' if n.func.id == 'min' else 'min', 'minmax')
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('any', 'all', 'ones', 'zeros', 'empty', 'conjugate', 'copy'):
                    m = dict(any='all', all='any', zeros='empty')
                    if n.func.attr in m: add(n.func, '%s.%s' % (seg(n.func.value), m[n.func.attr]), 'attr')
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                pass
            elif isinstance(n, ast.IfExp):
                add(n, '(%s)' % seg(n.body), 'ifexp'); add(n, '(%s)' % seg(n.orelse), 'ifexp')
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not skip:
                add(n, 'pass', 'del')
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}[type(n.op)]
                add(n, '%s %s %s' % (seg(n.target), o, seg(n.value)), 'aug')
            if isinstance(n, ast.If):
                add(n.test, 'True', 'if'); add(n.test, 'False', 'if')
            if isinstance(n, ast.Return) and n.value is None: add(n, 'pass', 'del')
        fn = infn or isinstance(n, (ast.FunctionDef,))
        for f, v in ast.iter_fields(n):
            if f in ('decorator_list', 'annotation', 'returns'): continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST): walk(c, fn, False)
    walk(tree, False, False)
    res, seen = [], set()
    for ln, (s, e), text, what in out:
        new = (b[:s] + text.encode() + b[e:])
        if new in seen or new == b: continue
        seen.add(new)
        try:
            if ast.dump(ast.parse(new.decode())) == ast.dump(tree): continue
        except SyntaxError: continue
        res.append(dict(line=ln, what=what, old=b[s:e].decode()[:120], new=text[:120], src=new.decode()))
    return res

if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('file'); p.add_argument('out'); p.add_argument('--jobs', type=int, default=4); p.add_argument('--procs', type=int, default=2)
    p.add_argument('--sample', type=int); p.add_argument('--seed', type=int, default=1); p.add_argument('--checks'); p.add_argument('--lines'); p.add_argument('--list', action='store_true')
    a = p.parse_args()
    rel = 'spherical_functions/' + a.file
    src = open('/repo/' + rel).read()
    M = mutants(src)
    if a.lines:
        lo, hi = map(int, a.lines.split('-')); M = [m for m in M if lo <= m['line'] <= hi]
    if a.sample and a.sample < len(M): M = sorted(random.Random(a.seed).sample(M, a.sample), key=lambda m: m['line'])
    if a.list:
        for m in M: print(m['line'], m['what'], m['old'].replace('\n', ' '), '->', m['new'].replace('\n', ' '))
        print(len(M)); sys.exit()
    checks = (a.checks or CHECKS[a.file].replace(' ', ',')).split(',')
    pure = a.file.startswith(PURE)
    slots = queue.Queue()
    def env(k, nb):
        w = '/tmp/mut/%s_%s/w' % (a.file.replace('/', '_'), k)
        e = dict(os.environ, VP_WORK=w, VP_HOME='/tmp/mut/%s_%s/h' % (a.file.replace('/', '_'), k), NUMBA_CACHE_DIR=nb, PYTHONPYCACHEPREFIX=w + '/pyc', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 NUMBA_NUM_THREADS='1', VP_REPO='/tmp/mut/%s_%s/r' % (a.file.replace('/', '_'), k), PYTHONPATH='/tmp/mut/%s_%s/r:%s' % (a.file.replace('/', '_'), k, HERE), PYTHONDONTWRITEBYTECODE='1', VP_FAILFAST='1', VP_PROCS=str(a.procs), VERIF_SEED='1', VERIF_TIER='quick')
        return w, e
    def run(k, c, tmo=600):
        base = '/tmp/mut/%s_%s' % (a.file.replace('/', '_'), k)
        nb = base + ('/nb' if pure else '/w/nb')
        w, e = env(k, nb)
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        os.makedirs(base + '/h', exist_ok=True)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'vp.main', c], env=e, cwd=w, capture_output=True, text=True, timeout=tmo)
            return r.returncode, (r.stdout + r.stderr)
        except subprocess.TimeoutExpired:
            subprocess.run(['pkill', '-9', '-f', 'thispatternmatchesnothing'])
            return 124, 'timeout'
    def prep(k):
        base = '/tmp/mut/%s_%s' % (a.file.replace('/', '_'), k)
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        shutil.copytree('/repo', base + '/r', ignore=shutil.ignore_patterns('.git'))
        if pure:
            for c in checks: run(k, c)
        slots.put(k)
    with cf.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(prep, range(a.jobs)))
    print('prepared', len(M), 'mutants', time.strftime('%H:%M'), flush=True)
    def one(m):
        k = slots.get()
        try:
            f = '/tmp/mut/%s_%s/r/%s' % (a.file.replace('/', '_'), k, rel)
            st = os.stat(f)
            open(f, 'w').write(m['src'])
            killed = None
            rcs = {}
            for c in checks:
                rc, o = run(k, c)
                rcs[c] = rc
                if rc == 1 or rc < 0 and -rc in (11, 6, 7, 8, 4, 27):
                    killed = c
                    if rc == 1 and 'VIOLATION' not in o: killed = c + '!'; m['tail'] = o[-400:]
                    else: m['how'] = next((l for l in o.splitlines() if 'violation' in l.lower() or ':' in l and l.strip().startswith(('C', '['))), '')[:200]
                    break
            open(f, 'w').write(src)
            r = {x: m[x] for x in m if x != 'src'}; r.update(killed=killed, rcs=rcs)
            open(a.out, 'a').write(json.dumps(r) + '\n')
            return r
        finally: slots.put(k)
    n = s = 0
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, M):
            n += 1
            if not r['killed']:
                s += 1
                print('SURVIVED %s:%d %s  %s -> %s %s' % (a.file, r['line'], r['what'], r['old'].replace('\n', ' '), r['new'].replace('\n', ' '), [v for v in r['rcs'].values() if v]), flush=True)
    print('done: %d mutants, %d survived' % (n, s), time.strftime('%H:%M'))
    for k in range(a.jobs): shutil.rmtree('/tmp/mut/%s_%s' % (a.file.replace('/', '_'), k), ignore_errors=True)
