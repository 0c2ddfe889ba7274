"""C24: inputs untouched, results repeatable and independent of history, layout, threads and what callers do with results."""
import copy, sys, threading, types, hashlib
import numpy as np
import quaternion
import spherical_functions as sf
from .. import gens, calls
from ..core import W

RULE = ("case = a supported call from the catalogue (vp/calls.py, %d kinds), or a history of 40 calls, or 6 threads running such histories; inputs hashed before and after, results "
        "compared between repetitions; distinct = (call, layout) or histories" % len(calls.BUILDERS))
ASSUMPTIONS = ["repeated results are compared to 1e-14 relative (2e-15 where values are exact), not bit for bit: which SIMD lanes numpy uses depends on memory alignment",
               "threads interleave at Python level (the compiled kernels hold the GIL); the switch interval is 1 microsecond",
               "the Modes constructor may zero the ell<|s| part of the array it is given, and returns a view of it (documented by its use of views); inputs here are already zero there",
               "returned objects may share memory with their inputs only where they are views by design: Modes(), .ndarray, truncate_ell"]
REQUIRED = ['inputs kept', 'repeatable', 'repeatable after overwrite', 'not aliased', 'layout', 'history', 'kept results', 'threads', 'tables kept', 'settings kept']
VIEWS = {'Modes()', 'Modes.truncate_ell'}


# ---- snapshots -----------------------------------------------------------------------------------------------------------
def arrays(x):
    if isinstance(x, np.ndarray): return [x]
    if isinstance(x, (tuple, list)): return [a for y in x for a in arrays(y)]
    return []


def raw(a):
    p = np.asarray(a).view(np.ndarray) if not a.dtype == np.quaternion else quaternion.as_float_array(a.view(np.ndarray))
    return (type(a), a.shape, str(a.dtype), np.array(p, order='C').tobytes())


def meta(x):
    if isinstance(x, (sf.Modes, sf.Grid)): return sorted((k, v) for k, v in x._metadata.items()) if hasattr(x, '_metadata') else x.s
    return None


def snap(args): return [[raw(a) for a in arrays(x)] + [meta(x)] if arrays(x) else repr(x) if isinstance(x, (int, float, complex, list, tuple)) else None for x in args]


def dup(x):
    if isinstance(x, (sf.Modes, sf.Grid)):
        return type(x)(np.array(x.view(np.ndarray)), spin_weight=x.s)
    if isinstance(x, np.ndarray): return x.copy()
    if isinstance(x, list): return [dup(y) for y in x]
    if isinstance(x, tuple): return tuple(dup(y) for y in x)
    return x


def module_state():
    st = {}
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] != 'spherical_functions' or mod is None: continue
        for k, v in sorted(vars(mod).items()):
            if isinstance(v, np.ndarray): st[name + '.' + k] = hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest() + str(v.shape)
            elif isinstance(v, (int, float, complex, str)) and not k.startswith('__'): st[name + '.' + k] = repr(v)
    return st


def settings():
    return dict(err=np.geterr(), po={k: repr(v) for k, v in np.get_printoptions().items()}, rec=sys.getrecursionlimit(),
                rnd=hashlib.sha1(np.random.get_state()[1].tobytes()).hexdigest() + str(np.random.get_state()[2]))


# private names that the pinned code does not have are an implementation's own business (a cache, a scratch table)
KNOWN = {'_Wigner_coefficients', '_binomial_coefficients', '_ladder_operator_coefficients', 'factorials', 'epsilon', 'ell_max', 'error_on_bad_indices'}
STATE0 = {k: v for k, v in module_state().items() if k.split('.')[-1] in KNOWN or not k.split('.')[-1].startswith('_')}
SET0 = settings()


def check_state(mon, what):
    now = module_state()
    for k, v in STATE0.items():
        if now.get(k) != v: mon.fail('tables kept', 'module table or setting changed', name=k, before=v[:80], after=str(now.get(k))[:80], after_call=what)
    mon.events['tables kept'] += 1; mon.values['tables kept'] += len(STATE0)
    mon.eq('settings kept', settings(), SET0, after_call=what)


def tolr(c): return 2e-15 if c.tol == 0 else max(1e-14, min(c.tol, 1e-13))


def agree(mon, kind, c, a, b, **info):
    mon.events[kind] += 1; mon.values[kind] += sum(x.size for x in a)
    d = calls.same(a, b, tolr(c))
    if d: mon.fail(kind, d, call=c.describe(), **info)


# ---- workloads -----------------------------------------------------------------------------------------------------------
def purity(mon, rng, idx, tier):
    c = calls.make(rng, idx)
    orig = [dup(a) for a in c.args]
    mon.ctx.update(call=c.describe())
    free = [i for i in range(len(c.args)) if i not in c.written()]
    watch = lambda args: snap([args[i] for i in free])
    before = watch(c.args)
    res = c.fn(*c.args)
    first = calls.flat(res)
    for i in c.written():
        if c.outs != ('w',): first += calls.flat(c.args[i])
    mon.ok('inputs kept', watch(c.args) == before, 'an input was modified')
    ins = [a for i in free for a in arrays(c.args[i])]
    outs = arrays(res)
    if c.name in VIEWS or c.name.endswith('ndarray'): mon.region('views by design')
    else:
        for o in outs:
            for a in ins: mon.ok('not aliased', not (o.size and a.size and np.shares_memory(np.asarray(o), np.asarray(a))), 'the result shares memory with an input')
    args2 = [dup(a) for a in orig]
    agree(mon, 'repeatable', c, c.run(args2), first)
    # callers may do what they like with what they were given
    for o in outs + arrays(c.args):
        if o.flags.writeable and o.dtype.kind in 'fciu': o.view(np.ndarray)[...] = -77 if o.dtype.kind in 'iu' else np.nan
    for _ in range(3):
        o = calls.make(rng)
        if not o.slow: o.run()
    agree(mon, 'repeatable after overwrite', c, c.run([dup(a) for a in orig]), first)
    mon.key(c.name); mon.region(c.name)
    if idx % 10 == 0: check_state(mon, c.describe())
    mon.sample(call=c.describe())


LAYOUTS = ['read-only', 'F', 'strided', 'reversed', 'offset', 'moved', 'big-endian index']


def relay(x, lay):
    """an equal array with another memory layout"""
    if isinstance(x, (sf.Modes, sf.Grid)):
        b = relay(np.array(x.view(np.ndarray)), lay)
        return None if b is None else type(x)(b, spin_weight=x.s) if lay != 'read-only' else ro(type(x)(b.copy(), spin_weight=x.s))
    if not isinstance(x, np.ndarray): return None
    if lay == 'read-only': return ro(x.copy())
    if lay == 'F': return np.asfortranarray(x) if x.ndim > 1 else None
    if x.ndim == 0: return None
    if lay == 'strided':
        b = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype); b[..., ::2] = x; return b[..., ::2]
    if lay == 'reversed': return x[..., ::-1].copy()[..., ::-1]
    if lay == 'offset':
        b = np.zeros((x.size + 3,), x.dtype); v = b[2:2 + x.size].reshape(x.shape); v[...] = x; return v
    if lay == 'moved': return np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 0, -1)), -1, 0) if x.ndim > 1 else None
    return None


def ro(x): x.flags.writeable = False; return x


def layout(mon, rng, idx, tier):
    c = calls.make(rng, idx)
    lay = LAYOUTS[int(rng.integers(len(LAYOUTS) - 1))]
    skip = set(c.written())
    new, changed = [dup(a) for a in c.args], 0
    for i, a in enumerate(c.args):
        if i in skip and lay in ('read-only',): continue
        if i in skip: continue
        if lay == 'read-only' and (c.name == 'Modes()' or c.name.startswith('_')): continue     # wraps the caller's array; typed work functions
        b = relay(a, lay)
        if b is not None: new[i] = b; changed += 1
    if not changed: mon.note('no array argument to re-lay'); return
    mon.ctx.update(call=c.describe(), layout=lay)
    want = c.run()
    before = snap(new)
    got = c.run(new)
    mon.ok('inputs kept', all(b == a for i, (a, b) in enumerate(zip(before, snap(new))) if i not in skip), 'an input was modified')
    agree(mon, 'layout', c, got, want)
    mon.key(c.name, lay); mon.region('layout ' + lay)


def history(mon, rng, idx, tier):
    """The same calls in two orders, with the calls of one order repeated"""
    cs = [calls.make(rng) for _ in range(40)]
    cs = [c for c in cs if not c.slow]
    orig = [[dup(a) for a in c.args] for c in cs]
    first = [c.run([dup(a) for a in o]) for c, o in zip(cs, orig)]
    order = list(range(len(cs))) + list(rng.integers(0, len(cs), 10))
    rng.shuffle(order)
    for k in order:
        mon.ctx.update(call=cs[k].describe(), history=[cs[j].name for j in order])
        agree(mon, 'history', cs[k], cs[k].run([dup(a) for a in orig[k]]), first[k])
    check_state(mon, 'history')
    mon.key('history', idx)


def kept(mon, rng, idx, tier):
    """Results are kept as returned (not copied) while the same argument objects and calculators are used again: no later call may change them"""
    from spherical_functions.recursions import wignerH as wedge_mod
    from spherical_functions.WignerD import WignerDRecursion as full_mod
    cs = []
    while len(cs) < 7:
        c = calls.make(rng)
        if not c.outs and not c.slow and c.name not in VIEWS: cs.append(c)
    hcs = [mod.HCalculator(int(n)) for mod in (wedge_mod, full_mod) for n in rng.integers(0, 8, 1)]
    for hc in hcs:
        c0 = calls.cosb(rng)
        for c1 in (c0, rng.permutation(c0.reshape(-1)).reshape(c0.shape) * .9, calls.cosb(rng)):
            cs.append(calls.Call('HCalculator (reused)', hc, [np.asarray(c1)], tol=1e-11))
    args0 = [snap(c.args) for c in cs]
    store, first, trace = [], {}, []
    order = list(range(len(cs))) * 3
    rng.shuffle(order)
    for k in order:
        c = cs[k]; trace.append(c.name)
        mon.ctx.update(call=c.describe(), history=trace)
        r = c.fn(*c.args)
        f = calls.flat(r)
        if k in first: agree(mon, 'history', c, f, first[k])
        else: first[k] = f
        outs = arrays(r)
        for o in outs:
            for _, j, os_, _ in store[-12:]:
                for o2 in os_: mon.ok('not aliased', not (o.size and o2.size and np.may_share_memory(np.asarray(o), np.asarray(o2)) and np.shares_memory(np.asarray(o), np.asarray(o2))),
                                      'the results of two calls share memory', other=cs[j].describe())
        store.append((r, k, outs, snap([r])))
    for r, k, outs, sn in store:
        mon.events['kept results'] += 1; mon.values['kept results'] += sum(o.size for o in outs)
        if snap([r]) != sn: mon.fail('kept results', 'a result was changed by a later call', call=cs[k].describe())
    for k, c in enumerate(cs): mon.ok('inputs kept', snap(c.args) == args0[k], 'an input was modified', call=c.describe())
    mon.key('kept', idx)


def threads(mon, rng, idx, tier):
    n = 6
    cs = [c for c in (calls.make(rng) for _ in range(30)) if not c.slow]
    # several threads also share argument objects: nothing may write to them
    shared = [[dup(a) for a in c.args] for c in cs]
    want = [c.run([dup(a) for a in o]) for c, o in zip(cs, shared)]
    orders = [list(rng.permutation(len(cs))) for _ in range(n)]
    mine = [[[dup(a) for a in o] if cs[k].outs else None for k, o in enumerate(shared)] for _ in range(n)]
    got, errs, log = {}, [], []
    bar = threading.Barrier(n)
    def run(t):
        try:
            bar.wait(30)
            for k in orders[t]:
                log.append((t, k))
                got[t, k] = cs[k].run(mine[t][k] if mine[t][k] is not None else shared[k])
                log.append((t, k))
        except Exception as e:
            errs.append((t, k, e))
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(t,)) for t in range(n)]
        for t in ts: t.start()
        for t in ts: t.join(120)
    finally: sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts): mon.fail('threads', 'a thread did not finish within 120 s')
    for t, k, e in errs: mon.fail('threads', 'a call failed in a thread: %s: %s' % (type(e).__name__, e), call=cs[k].describe(), thread=t)
    for (t, k), r in got.items():
        mon.ctx.update(call=cs[k].describe(), thread=t)
        agree(mon, 'threads', cs[k], r, want[k])
    check_state(mon, 'threads')
    sw = sum(a[0] != b[0] for a, b in zip(log, log[1:]))
    mon.region('thread switches observed between call boundaries', sw)
    mon.region('calls overlapped by another thread', sum(log[i][1] != log[i + 1][1] or log[i][0] != log[i + 1][0] for i in range(0, len(log) - 1, 2)))
    mon.key('threads', hashlib.sha1(repr(log).encode()).hexdigest())


WORKLOADS = [W('purity', purity, 12000, 200000), W('layout', layout, 8000, 100000), W('history', history, 100, 2000), W('kept', kept, 300, 6000), W('threads', threads, 60, 1200)]


def warmup(tier):
    from ..core import case_rng
    for i in range(3 * len(calls.BUILDERS)):
        rng = case_rng(999, 'warm', i)
        try: calls.make(rng, i).run()
        except Exception: pass
