"""C23: memory safety, initialisation and integer range of every supported call, by running one catalogue of calls in four execution modes."""
import os, sys, time, signal, subprocess, pickle, shutil
import numpy as np
import spherical_functions as sf
from spherical_functions.recursions.complex_powers import complex_powers
from .. import gens, calls
from ..core import W, Inconclusive, case_rng

RULE = ("case = one call of the catalogue run in all four modes (compiled with every numpy array ending at / starting after an inaccessible page and filled with NaN / 4.8e-4, compiled with "
        "numba bounds checking, interpreted), or one output array surrounded by canaries; distinct = (call, mode)")
ASSUMPTIONS = ["reads and writes within the same array (a wrong but valid index) are not memory errors; the value properties C01-C22 decide those",
               "work arrays allocated inside compiled code are covered by bounds checking and by two malloc fill patterns, not by guard pages",
               "negative indices wrap in numba as in Python and are not reported by bounds checking; they are caught by guard pages only where they leave the array",
               "compiled and interpreted results agree to the roundoff of the algorithm (1e-10 to 1e-13 of the largest entry)", "spinsfast and quaternion are trusted"]
REQUIRED = ['no fault (fence-end)', 'no fault (fence-begin)', 'no fault (bounds)', 'no fault (interp)', 'compiled equals interpreted', 'independent of memory contents', 'canary kept']
MODES = {'fence-end': dict(MALLOC_PERTURB_='85'), 'fence-begin': dict(MALLOC_PERTURB_='170'), 'bounds': dict(NUMBA_BOUNDSCHECK='1'), 'interp': dict(NUMBA_DISABLE_JIT='1')}


def build_fence(work):
    import sysconfig
    so = os.path.join(work, 'vpfence.so')
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fence.c')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-w', '-I', sysconfig.get_paths()['include'], '-I', np.get_include(), src, '-o', so, '-lpthread'], check=True, timeout=120)


def modes(mon, rng, idx, tier):
    seed = int(rng.integers(1 << 30))
    n = len(calls.BUILDERS) * dict(quick=40, thorough=600)[tier]
    work = os.environ['VP_WORK']
    try: build_fence(work)
    except Exception as e: raise Inconclusive('cannot build the guard-page allocator: %s' % e)
    procs = {}
    for m, env in MODES.items():
        out = os.path.join(work, 'mem-%s-%d' % (m, idx)); os.makedirs(out)
        e = dict(os.environ); e.update(env); e['NUMBA_CACHE_DIR'] = os.path.join(work, 'nb-' + m)
        log = open(os.path.join(out, 'log'), 'w')
        procs[m] = (subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vp.memrun', m, str(seed), tier, str(n), '2', out], env=e, stdout=log, stderr=log, cwd=work), out)
    t0 = time.time(); limit = dict(quick=700, thorough=5 * 3600)[tier]
    res = {}
    for m, (p, out) in procs.items():
        try: p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q, _ in procs.values(): q.kill()
            raise Inconclusive('mode %s did not finish in %d s' % (m, limit))
    for m, (p, out) in procs.items():
        log = open(os.path.join(out, 'log')).read()
        if not os.path.exists(os.path.join(out, 'codes')):
            if p.returncode in (-11, -6, -7, -4, -8): mon.fail('no fault (%s)' % m, 'the process was killed by signal %d while compiling or warming up\n%s' % (-p.returncode, log[-1500:]))
            raise Inconclusive('mode %s failed (exit %s): %s' % (m, p.returncode, log[-1500:]))
        res[m] = {}
        for k, code in enumerate(open(os.path.join(out, 'codes')).read().split()):
            st = os.path.join(out, 'status%d' % k)
            at = int(open(st).read() or -1) if os.path.exists(st) else -1
            rf = os.path.join(out, 'result%d' % k)
            if os.path.exists(rf):
                rs, stats = pickle.load(open(rf, 'rb'))
                mon.region('%s: arrays guarded' % m, stats[0]); mon.region('%s: bytes guarded' % m, stats[1])
                for i, name, r in rs: res[m][i] = (name, r)
            elif int(code) in (-11, -6, -7, -4, -8) and at >= 0:
                c = calls.make(case_rng(seed, 'mem', at), at)
                mon.fail('no fault (%s)' % m, 'killed by signal %s in this call: memory outside the arrays was used' % signal.Signals(-int(code)).name, call=c.describe(), case=at,
                         log='\n'.join(l for l in log.splitlines() if 'fence:' in l or 'Fatal' in l or 'spherical_functions' in l)[-800:])
            else: raise Inconclusive('mode %s worker %d: exit %s at %s: %s' % (m, k, code, at, log[-1500:]))
        shutil.rmtree(out, ignore_errors=True)
    order = list(res)
    for i in range(n):
        c = None
        def call(): return calls.make(case_rng(seed, 'mem', i), i).describe()
        for m in order:
            name, r = res[m][i]
            mon.events['no fault (%s)' % m] += 1
            if isinstance(r, str): mon.fail('no fault (%s)' % m, 'the call failed: ' + r, call=call(), case=i)
            mon.key(name, m)
        c = calls.make(case_rng(seed, 'mem', i), i)
        ref = res['interp'][i][1]
        for m, kind in (('fence-end', 'compiled equals interpreted'), ('bounds', 'compiled equals interpreted')):
            d = calls.same(res[m][i][1], ref, c.tol)
            mon.events[kind] += 1; mon.values[kind] += sum(x.size for x in ref)
            if d: mon.fail(kind, '%s against interpreted: %s' % (m, d), call=c.describe(), case=i)
        d = calls.same(res['fence-begin'][i][1], res['fence-end'][i][1], min(c.tol, 1e-13))
        mon.events['independent of memory contents'] += 1; mon.values['independent of memory contents'] += sum(x.size for x in ref)
        if d: mon.fail('independent of memory contents', d, call=c.describe(), case=i)
        for r in ref:
            mon.ok('finite', r.dtype.kind not in 'fc' or bool(np.all(np.isfinite(r))), 'a value is not finite', call=c.name)
        mon.region(c.name)
    mon.sample(calls=n, call=c.describe())


def canary(mon, rng, idx, tier):
    """output arguments embedded in larger buffers, contiguous and strided: everything outside them keeps its contents"""
    B = [calls.c_cpo, calls.c_kD, calls.c_kM, calls.c_kY, calls.c_Hw]
    b = B[idx % len(B)]
    if b in calls.KERNELS and gens.work(*calls.KERNELS[b]) is None: b = calls.c_cpo
    c = b(rng)
    k = c.written()[0]; o = c.args[k]; step = int(rng.integers(1, 4)) if b is not calls.c_Hw else 1
    pad = int(rng.integers(1, 9))
    if o.ndim == 1 or step == 1:
        big = np.full(2 * pad + o.size * step, 1234.5, o.dtype)
        view = big[pad:pad + o.size * step:step].reshape(o.shape) if step == 1 else big[pad:pad + o.size * step:step]
    else:
        big = np.full(o.shape[:-1] + (2 * pad + o.shape[-1] * step,), 1234.5, o.dtype); view = big[..., pad:pad + o.shape[-1] * step:step]
    mon.ctx.update(call=c.describe(), step=step, pad=pad)
    before = o.copy(); view[...] = o
    args = list(c.args); args[k] = view
    c.fn(*args)
    mask = np.ones(big.shape, bool)
    if o.ndim == 1 or step == 1: mask[pad:pad + o.size * step:step] = False
    else: mask[..., pad:pad + o.shape[-1] * step:step] = False
    mon.ok('canary kept', bool(np.all(big[mask] == 1234.5)), 'memory next to an output array was written')
    if b is not calls.c_Hw: mon.ok('output filled', bool(np.all(np.isfinite(view))), 'part of the output array was not written')
    mon.key('canary', c.name, step)


WORKLOADS = [W('modes', modes, 1, 1, solo=True), W('canary', canary, 3000, 60000)]
