"""C15: out= and augmented assignment give the out-of-place result."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W
from .c13 import conj_modes
from .c12 import product_b

RULE = ("case = one operation, one kind of output (Modes/Grid or plain array; fresh, filled with old data, NaN, with other metadata, strided, an input itself, or one overlapping an input) or one "
        "augmented assignment; the output must equal the mathematics and the out-of-place call, inputs other than the output keep their bits; "
        "distinct = (class, operation, output kind, aliasing, leading axes)")
ASSUMPTIONS = ["agreement to 1e-13 relative with the out-of-place result", "outputs are complex (Modes and Grid store complex values), also float for the absolute value of a Grid"]
REQUIRED = ['out values', 'out metadata', 'return value', 'inputs kept', 'augmented values', 'augmented metadata', 'cannot hold: refused', 'cannot hold: inputs kept', 'conjugate in place', 'overlapping out', 'plain arrays into an object', 'metadata independent']
LEADS = [(), (2,), (3,), (2, 2), (), (1,), (2,), (2, 1)]


def out_for(rng, kind, cls, shape, n_lead, s, L, nt=None):
    """an output array of the given kind with unrelated contents and metadata"""
    junk = rng.normal(size=shape) + 1j * rng.normal(size=shape) + 5
    if rng.random() < .3: junk[...] = np.nan
    if kind == 'plain': return junk
    if kind == 'strided':
        big = np.full(shape[:-1] + (2 * shape[-1],), 3 + 3j); v = big[..., ::2]; v[...] = junk; return v
    if kind == 'F': return np.asfortranarray(junk)
    # an object with another spin weight
    if cls is sf.Modes:
        o = sf.Modes(np.array(junk), spin_weight=0, ell_max=L); hasattr(o, '_metadata') and o._metadata.update(spin_weight=int(rng.integers(-3, 4))); return o
    lim = (min(shape[-2:]) - 1) // 2
    return sf.Grid(np.array(junk), spin_weight=int(rng.integers(-lim, lim + 1)))


def compare(mon, name, cls, got, want, ws, wL, tol):
    d = got.view(np.ndarray) if isinstance(got, np.ndarray) else np.asarray(got)
    mon.close(name + ' values', d, want, tol)
    if isinstance(got, cls):
        if cls is sf.Modes: mon.ok(name + ' metadata', got.s == ws and got.ell_max == wL and got.shape[-1] == (wL + 1) ** 2, s=got.s, want_s=ws, ell_max=got.ell_max, want_ell_max=wL)
        else: mon.ok(name + ' metadata', got.s == ws, s=got.s, want_s=ws)


def follow_up(mon, cls, o, want, s, L):
    """the object that received the result goes on working as what it claims to be"""
    if not isinstance(o, cls): return
    c = o.copy().conjugate(); want = np.array(o.view(np.ndarray))
    if cls is sf.Modes: mg.check_modes(mon, 'out metadata follow-up', c, conj_modes(want, s, L), -s, L, 1e-12 * (np.abs(want).max() + 1e-280) if want.size else 1)
    else: mg.check_grid(mon, 'out metadata follow-up', c, want.conj(), -s, 1e-12 * (np.abs(want) + 1e-280))


KINDS = ['own', 'plain', 'strided', 'F', 'alias0', 'alias1', 'view0']


def run(mon, rng, cls, opname, call, ins, want, ws, wL, idx, n_lead, scale=None):
    """call(*objs, out=..) ; ins = list of operand objects/scalars; want = expected values"""
    tol = 1e-13 * (np.abs(want) + (scale if scale is not None else 1e-270)) + 1e-290
    kind = KINDS[int(rng.integers(len(KINDS)))]
    objs = [i.copy() if isinstance(i, np.ndarray) else i for i in ins]
    keep = [np.array(o.view(np.ndarray)) if isinstance(o, np.ndarray) else o for o in objs]
    meta = [(o.s, o.shape) if isinstance(o, cls) else None for o in objs]
    plainres = call(*objs)
    compare(mon, 'out-of-place', cls, plainres, want, ws, wL, tol)
    alias = None
    if kind in ('alias0', 'alias1', 'view0'):
        j = 0 if kind != 'alias1' else 1
        if j >= len(objs) or not isinstance(objs[j], cls) or objs[j].shape != want.shape: kind = 'own'
        else:
            alias = j; out = objs[j] if kind != 'view0' else objs[j].view(np.ndarray)
    if alias is None: out = out_for(rng, kind, cls, want.shape, n_lead, ws, wL)
    mon.ctx.update(operation=opname, out=kind, shape=want.shape, want_s=ws)
    r = call(*objs, out=out)
    compare(mon, 'out', cls, out, want, ws, wL, tol)
    mon.ok('return value', isinstance(r, np.ndarray))
    compare(mon, 'return value', cls, r, want, ws, wL, tol)
    mon.ok('return value', type(r) is type(plainres), got=type(r), want=type(plainres))
    for i, (o, k, mt) in enumerate(zip(objs, keep, meta)):
        if i == alias or not isinstance(o, np.ndarray): continue
        if alias is not None and o is objs[alias]: continue
        mon.same('inputs kept', o.view(np.ndarray), k)
        if mt: mon.eq('inputs kept', (o.s, o.shape), mt)
    follow_up(mon, cls, out, want, ws, wL)
    # what happens to one of the objects later does not reach the others
    if isinstance(out, cls) and alias is None:
        others = [(o, mt[0]) for o, mt in zip(objs, meta) if mt and not np.shares_memory(o, out)]
        out.conjugate(inplace=True)
        for o, so in others: mon.eq('metadata independent', o.s, so)
        for o, so in others[:1]: o.conjugate(inplace=True); mon.eq('metadata independent', (o.s, out.s), (-so, -ws))
    mon.key(cls.__name__, opname, kind, n_lead)
    mon.region('%s out=%s' % (cls.__name__, kind))
    # an output that cannot hold the result
    if rng.random() < .5 and want.ndim:
        bad = list(want.shape); bad[-1] = bad[-1] + int(rng.integers(1, 4)) if rng.random() < .5 or bad[-1] < 2 else bad[-1] - 1
        if len(bad) > 1 and rng.random() < .3: bad = list(want.shape); bad[0] = bad[0] + 1
        if tuple(bad) != want.shape:
            ob = np.full(bad, 4 + 4j)
            objs = [i.copy() if isinstance(i, np.ndarray) else i for i in ins]
            try:
                call(*objs, out=ob)
            except Exception:
                mon.ok('cannot hold: refused', True)
            else:
                # numpy lets an output be larger through broadcasting of the inputs; the result must then be right
                try: big = np.broadcast_to(want, ob.shape)
                except ValueError: mon.fail('cannot hold: refused', 'an output of shape %s was accepted for a result of shape %s' % (ob.shape, want.shape), operation=opname)
                mon.close('broadcast output', ob, big, 1e-12 * (np.abs(big) + 1e-270) + (scale or 0) * 1e-12)
            for o, k in zip(objs, keep):
                if isinstance(o, np.ndarray): mon.same('cannot hold: inputs kept', o.view(np.ndarray), k)


def modes_out(mon, rng, idx, tier):
    lead = LEADS[idx % 8]
    if lead and rng.random() < .02: lead = gens.lengthen(rng, lead)
    op = ['positive', 'negative', 'add', 'subtract', 'multiply', 'scalar*', '*scalar', 'divide', 'conjugate', 'array*', 'addzero'][idx // 8 % 11]
    m1, w1, s, L1 = mg.modes(rng, shape=lead, maxL=5)
    mon.ctx.update(s=s, ell_max=L1, lead=lead)
    run_ = lambda name, call, ins, want, ws, wL, scale=None: run(mon, rng, sf.Modes, name, call, ins, want, ws, wL, idx, len(lead), scale)
    if op == 'positive': run_(op, lambda a, **k: np.positive(a, **k), [m1], w1, s, L1)
    elif op == 'negative': run_(op, lambda a, **k: np.negative(a, **k), [m1], -w1, s, L1)
    elif op in ('add', 'subtract'):
        m2, w2, _, L2 = mg.modes(rng, s=s, shape=lead if rng.random() < .7 else lead[1:], maxL=5, L=L1 if rng.random() < .5 else None)
        L = max(L1, L2); p1, p2 = mg.pad(w1, L), mg.pad(w2, L)
        u = np.add if op == 'add' else np.subtract
        if rng.random() < .15: m2, w2, p2 = m1, w1, p1 if L == L1 else p1; L = L1; p1 = p2 = w1
        sw = rng.random() < .5
        a, b = (m1, m2) if sw else (m2, m1)
        want = u(p1, p2) if sw else u(p2, p1)
        run_(op, lambda a, b, **k: u(a, b, **k), [a, b], want, s, L, np.abs(p1).max() + np.abs(p2).max())
    elif op == 'multiply':
        m2, w2, s2, L2 = mg.modes(rng, shape=lead, maxL=4)
        trunc = rng.random() < .4
        if trunc:                  # so that the output can be an input
            m1 = sf.Modes(m1, multiplication_truncator=max); m2 = sf.Modes(m2, multiplication_truncator=max)
            L = max(L1, L2)
        else: L = L1 + L2
        if rng.random() < .15: m2, w2, s2, L2 = m1, w1, s, L1; L = L1 if trunc else 2 * L1
        want = mg.pad(product_b(w1, s, L1, w2, s2, L2), L).copy(); want[..., :min((s + s2) ** 2, want.shape[-1])] = 0
        run_(op, lambda a, b, **k: np.multiply(a, b, **k), [m1, m2], want, s + s2, L, 100 * mg.scale(w1) * mg.scale(w2))
    elif op in ('scalar*', '*scalar', 'divide'):
        c = [2.5, 1j, np.complex128(1 - 2j), 3][int(rng.integers(4))]
        if op == 'scalar*': run_(op, lambda a, b, **k: np.multiply(a, b, **k), [c, m1], c * w1, s, L1)
        elif op == '*scalar': run_(op, lambda a, b, **k: np.multiply(a, b, **k), [m1, c], c * w1, s, L1)
        else: run_(op, lambda a, b, **k: np.divide(a, b, **k), [m1, c], w1 / c, s, L1)
    elif op == 'array*':
        a = rng.normal(size=lead) + 2
        k_ = int(rng.integers(3))
        if k_ == 0: run_(op, lambda x, y, **k: np.multiply(x, y, **k), [m1, a], w1 * np.asarray(a)[..., None], s, L1)
        elif k_ == 1: run_(op, lambda x, y, **k: np.multiply(x, y, **k), [a, m1], w1 * np.asarray(a)[..., None], s, L1)
        else: run_(op, lambda x, y, **k: np.true_divide(x, y, **k), [m1, a], w1 / np.asarray(a)[..., None], s, L1)
    elif op == 'addzero':
        z = [0, 0.0, 0j, np.zeros(lead), np.zeros(())][int(rng.integers(5))]; k_ = int(rng.integers(4))
        if k_ == 0: run_(op, lambda x, y, **k: np.subtract(x, y, **k), [m1, z], w1, s, L1)
        elif k_ == 1: run_(op, lambda x, y, **k: np.add(x, y, **k), [m1, z], w1, s, L1)
        elif k_ == 2: run_(op, lambda x, y, **k: np.add(x, y, **k), [z, m1], w1, s, L1)
        else: run_(op, lambda x, y, **k: np.subtract(x, y, **k), [z, m1], -w1, s, L1)
    else:
        want = conj_modes(w1, s, L1)
        run_(op, lambda a, **k: np.conjugate(a, **k), [m1], want, -s, L1)
    mon.sample(operation=op, s=s, ell_max=L1, lead=lead)


def grid_out(mon, rng, idx, tier):
    lead = LEADS[int(rng.integers(8))]
    if lead and rng.random() < .02: lead = gens.lengthen(rng, lead)
    op = ['positive', 'negative', 'add', 'subtract', 'multiply', 'divide', 'scalar*', '*scalar', '/scalar', 'scalar/', 'array*', '*array', 'addconst', 'constsub', 'conjugate', 'absolute', 'power', 'sqrt', 'square', 'reciprocal'][idx % 20]
    s = int(rng.integers(-2, 3))
    if op == 'sqrt': s = 2 * int(rng.integers(-1, 2))
    if op in ('addconst', 'constsub'): s = 0
    nt, nph = mg.grid_size(rng, 4, 5)
    mon.ctx.update(s=s, lead=lead, n=(nt, nph), op=op)
    v1, v2 = mg.gridvals(rng, s, nt, nph, lead), mg.gridvals(rng, s, nt, nph, lead if rng.random() < .7 else lead[1:])
    g1 = sf.Grid(v1.copy(), spin_weight=s)
    run_ = lambda call, ins, want, ws: run(mon, rng, sf.Grid, op, call, ins, want, ws, None, idx, len(lead), np.abs(v1).max())
    u1 = dict(positive=(np.positive, s), negative=(np.negative, s), conjugate=(np.conjugate, -s), sqrt=(np.sqrt, s // 2), square=(np.square, 2 * s), reciprocal=(np.reciprocal, -s))
    c = [2.5, 1j, 1 - 2j, 3, np.float64(.25)][int(rng.integers(5))]
    a = rng.normal(size=lead) + 3; ae = np.asarray(a)[..., None, None]
    if op in u1: u, ws = u1[op]; run_(lambda x, **k: u(x, **k), [g1], u(v1), ws)
    elif op == 'absolute': absolute(mon, rng, g1, v1, s, lead)
    elif op in ('add', 'subtract'):
        u = np.add if op == 'add' else np.subtract; g2 = sf.Grid(v2.copy(), spin_weight=s)
        if rng.random() < .1: g2, v2 = g1, v1
        run_(lambda x, y, **k: u(x, y, **k), [g1, g2], u(v1, v2), s)
    elif op in ('multiply', 'divide'):
        s2 = int(rng.integers(-2, 3)); g2 = sf.Grid(v2.copy(), spin_weight=s2)
        if rng.random() < .1: g2, v2, s2 = g1, v1, s
        if op == 'multiply': run_(lambda x, y, **k: np.multiply(x, y, **k), [g1, g2], v1 * v2, s + s2)
        else: run_(lambda x, y, **k: np.divide(x, y, **k), [g1, g2], v1 / v2, s - s2)
    elif op == 'scalar*': run_(lambda x, y, **k: np.multiply(x, y, **k), [c, g1], c * v1, s)
    elif op == '*scalar': run_(lambda x, y, **k: np.multiply(x, y, **k), [g1, c], c * v1, s)
    elif op == '/scalar': run_(lambda x, y, **k: np.true_divide(x, y, **k), [g1, c], v1 / c, s)
    elif op == 'scalar/': run_(lambda x, y, **k: np.divide(x, y, **k), [c, g1], c / v1, -s)
    elif op == 'array*': run_(lambda x, y, **k: np.multiply(x, y, **k), [a, g1], ae * v1, s)
    elif op == '*array': run_(lambda x, y, **k: np.divide(x, y, **k), [g1, a], v1 / ae, s)
    elif op == 'addconst': run_(lambda x, y, **k: np.add(x, y, **k), [g1, c], v1 + c, 0)
    elif op == 'constsub': run_(lambda x, y, **k: np.subtract(x, y, **k), [c, g1], c - v1, 0)
    elif op == 'power': p = int(rng.choice([-2, -1, 0, 1, 2])); run_(lambda x, **k: np.power(x, p, **k), [g1], v1 ** p, p * s)


def absolute(mon, rng, g, v, s, lead):
    r = np.absolute(g)
    mon.close('out-of-place values', r.ndarray, np.abs(v), 1e-13 * np.abs(v)); mon.eq('out metadata', r.s, 0)
    for o in (np.full(v.shape, np.nan), sf.Grid(np.full(v.shape, 7.0), spin_weight=s)):
        r = np.absolute(g, out=o)
        for x in (o, r):
            mon.close('out values', x.view(np.ndarray), np.abs(v), 1e-13 * np.abs(v))
            if isinstance(x, sf.Grid): mon.eq('out metadata', x.s, 0)
    mon.same('inputs kept', g.ndarray, v); mon.eq('inputs kept', g.s, s)


def augmented(mon, rng, idx, tier):
    lead = LEADS[idx % 8]
    if lead and rng.random() < .02: lead = gens.lengthen(rng, lead)
    which = ['M+=', 'M-=', 'M*=c', 'M/=c', 'M*=a', 'M/=a', 'M*=M', 'G+=', 'G-=', 'G*=', 'G/=', 'G*=c', 'G/=c', 'G*=a', 'G/=a', 'G+=c', 'G**=', 'Gconj', 'Mconj', 'M+=0', 'M+=self', 'G*=self', 'M+=bigger'][idx // 8 % 23]
    mon.ctx.update(form=which, lead=lead)
    c = [2.5, 1j, 1 - 2j, 3][int(rng.integers(4))]; a = np.asarray(rng.normal(size=lead) + 3)
    if which[0] == 'M':
        m, w, s, L = mg.modes(rng, shape=lead, maxL=5)
        mon.ctx.update(s=s, ell_max=L)
        o = m; other = None; ws, wL = s, L
        if which in ('M+=', 'M-=', 'M+=bigger'):
            m2, w2, _, L2 = mg.modes(rng, s=s, shape=lead if rng.random() < .7 else lead[1:], L=int(rng.integers(0, L + 1)) if which != 'M+=bigger' else L + 1)
            other = (m2, w2)
            if which == 'M+=bigger':
                try: m += m2
                except Exception:
                    mon.ok('cannot hold: refused', True)
                    mon.same('cannot hold: inputs kept', o.ndarray, w); mon.eq('cannot hold: inputs kept', (o.s, o.ell_max), (s, L)); mon.same('cannot hold: inputs kept', m2.ndarray, w2)
                else: mg.check_modes(mon, 'augmented', m, mg.pad(w, L2) + w2, s, L2, 1e-13 * (mg.scale(w) + mg.scale(w2)))
                mon.key('aug', which, len(lead)); return
            if which == 'M+=': m += m2; want = w + mg.pad(w2, L)
            else: m -= m2; want = w - mg.pad(w2, L)
        elif which == 'M+=self': m += m; want = 2 * w
        elif which == 'M+=0': m += 0; want = w
        elif which == 'M*=c': m *= c; want = w * c
        elif which == 'M/=c': m /= c; want = w / c
        elif which == 'M*=a': m *= a; want = w * a[..., None]
        elif which == 'M/=a': m /= a; want = w / a[..., None]
        elif which == 'M*=M':
            m2, w2, s2, L2 = mg.modes(rng, shape=lead, maxL=4)
            t = rng.random() < .5
            if t: m = o = sf.Modes(m, multiplication_truncator=lambda x: L); m2 = sf.Modes(m2, multiplication_truncator=lambda x: L)
            other = (m2, w2); full = product_b(w, s, L, w2, s2, L2)
            ws = s + s2; wL = L if t else L + L2
            want = mg.pad(full, wL).copy(); want[..., :min(ws * ws, want.shape[-1])] = 0
            try: m *= m2
            except Exception:
                mon.ok('cannot hold: refused', wL != L, msg='a product that fits was refused')
                mon.same('cannot hold: inputs kept', o.ndarray, w); mon.eq('cannot hold: inputs kept', (o.s, o.ell_max), (s, L)); mon.same('cannot hold: inputs kept', m2.ndarray, w2)
                mon.key('aug', which, 'refused'); return
        else: m.conjugate(inplace=True); want = conj_modes(w, s, L); ws = -s; mon.ok('conjugate in place', True)
        tol = 1e-13 * (np.abs(want) + (mg.scale(w) + (mg.scale(other[1]) * (100 * mg.scale(w) if which == 'M*=M' else 1) if other else 0))) + 1e-290
        compare(mon, 'augmented', sf.Modes, m, want, ws, wL, tol)
        mon.ok('augmented metadata', type(m) is sf.Modes)
        if wL == L:        # the object that other names refer to has changed too
            compare(mon, 'augmented', sf.Modes, o, want, ws, wL, tol)
        follow_up(mon, sf.Modes, m, want, ws, wL)
        if other: mon.same('inputs kept', other[0].ndarray, other[1])
    else:
        s = 0 if which == 'G+=c' else int(rng.integers(-2, 3))
        nt, nph = mg.grid_size(rng, 4, 5)
        v = mg.gridvals(rng, s, nt, nph, lead); g = sf.Grid(v.copy(), spin_weight=s); o = g; other = None; ws = s
        mon.ctx.update(s=s, n=(nt, nph))
        if which in ('G+=', 'G-=', 'G*=', 'G/='):
            s2 = s if which in ('G+=', 'G-=') else int(rng.integers(-2, 3))
            v2 = mg.gridvals(rng, s2, nt, nph, lead if rng.random() < .7 else lead[1:]); g2 = sf.Grid(v2.copy(), spin_weight=s2); other = (g2, v2)
            if which == 'G+=': g += g2; want = v + v2
            elif which == 'G-=': g -= g2; want = v - v2
            elif which == 'G*=': g *= g2; want = v * v2; ws = s + s2
            else: g /= g2; want = v / v2; ws = s - s2
        elif which == 'G*=self': g *= g; want = v * v; ws = 2 * s
        elif which == 'G*=c': g *= c; want = v * c
        elif which == 'G/=c': g /= c; want = v / c
        elif which == 'G*=a': g *= a; want = v * a[..., None, None]
        elif which == 'G/=a': g /= a; want = v / a[..., None, None]
        elif which == 'G+=c': g += c; want = v + c
        elif which == 'G**=': p = int(rng.choice([-2, -1, 0, 1, 2, 3])) if abs(s) < 2 else int(rng.choice([-2, -1, 0, 1, 2])); g **= p; want = v ** p; ws = p * s
        else: g.conjugate(inplace=True); want = v.conj(); ws = -s; mon.ok('conjugate in place', True)
        for x in (g, o): mg.check_grid(mon, 'augmented', x, want, ws, 1e-13 * (np.abs(want) + np.abs(v).max()))
        mon.ok('augmented values', True)
        follow_up(mon, sf.Grid, g, want, ws, None)
        if other: mon.same('inputs kept', other[0].ndarray, other[1]); mon.eq('inputs kept', other[0].s, s2)
    mon.key('aug', which, len(lead), ws)


def overlap(mon, rng, idx, tier):
    """inputs and output are different, partly overlapping parts of one collection of functions"""
    M = idx % 2 == 0; cls = sf.Modes if M else sf.Grid
    n = int(rng.integers(3, 8)); lead = (n,) if rng.random() < .7 else (n, 2)
    if M:
        s = int(rng.integers(-3, 4)); L = max(1, abs(s)) + int(rng.integers(0, 3))
        w = mg.weights(rng, lead, s, L); make = lambda: sf.Modes(w.copy(), spin_weight=s, multiplication_truncator=max)
    else:
        s = 0 if rng.random() < .6 else int(rng.integers(-2, 3)); nt, nph = mg.grid_size(rng, 2 * s); w = mg.gridvals(rng, s, nt, nph, lead); make = lambda: sf.Grid(w.copy(), spin_weight=s)
    k = int(rng.integers(1, n)); c = 2.5 - 1j
    cuts = [(slice(None, -k), slice(k, None)), (slice(k, None), slice(None, -k)), (slice(None), slice(None, None, -1)), (slice(None, None, -1), slice(None)), (slice(0, 2), slice(1, 3)), (slice(0, n - 1, 1), slice(n - 1, 0, -1))]
    A, B = cuts[int(rng.integers(len(cuts)))]
    ops = dict(add=(2, np.add, s), subtract=(2, np.subtract, s), negative=(1, np.negative, s), positive=(1, np.positive, s), scaled=(1, lambda x, **k: np.multiply(x, c, **k), s), scaled2=(1, lambda x, **k: np.multiply(c, x, **k), s),
               divided=(1, lambda x, **k: np.divide(x, c, **k), s))
    if s == 0:
        ops.update(conjugate=(1, np.conjugate, 0), product=(2, np.multiply, 0))
        if not M: ops.update(quotient=(2, np.divide, 0), square=(1, np.square, 0), reciprocal=(1, np.reciprocal, 0), power=(1, lambda x, **k: np.power(x, 3, **k), 0), sqrt=(1, np.sqrt, 0), absolute=(1, np.absolute, 0))
    if s == 0: ops['addzero' if M else 'addconst'] = (1, (lambda x, **k: np.add(x, 0, **k)) if M else (lambda x, **k: np.subtract(c, x, **k)), 0)
    name = str(rng.permutation(sorted(ops))[0]); nin, f, ws = ops[name]
    mon.ctx.update(operation=name, s=s, shape=w.shape, cut_in=str(A), cut_out=str(B))
    ref_ = make(); want = f(ref_[A].copy(), *([ref_[B].copy()] if nin == 2 else []))
    full = np.array(w); full[B] = want.view(np.ndarray)
    for form in range(3 if nin == 2 else 2):
        b = make(); x, y = b[A], b[B]
        if form == 0: r = f(x, *([y] if nin == 2 else []), out=y)
        elif form == 1:
            if nin == 2: r = f(x, y, out=y.view(np.ndarray))
            else: r = f(x, out=y.view(np.ndarray))
        else:                                                # the other operand on the left, augmented
            if name not in ('add', 'subtract', 'product', 'quotient'): continue
            ww = dict(add=np.add, subtract=np.subtract, product=np.multiply, quotient=np.divide)[name](make()[B].copy(), make()[A].copy())
            full = np.array(w); full[B] = ww.view(np.ndarray)
            if name == 'add': y += x
            elif name == 'subtract': y -= x
            elif name == 'product': y *= x
            else: y /= x
            r = y
        sc = 1e-13 * np.max(np.abs(np.asarray(full)[np.isfinite(full)])) + 1e-290
        mon.close('overlapping out', b.view(np.ndarray), full, sc); mon.close('overlapping out', r.view(np.ndarray), full[B], sc)
        mon.eq('overlapping out', (r.s, b.s), (ws, s))
        mon.key('overlap', cls.__name__, name, form, idx % 6, len(lead))
    # plain arrays in, an object as output: refused, or the plain result
    o = make(); a = rng.normal(size=w.shape) + 2 + 1j * rng.normal(size=w.shape)
    u = [np.negative, np.positive, np.conjugate, np.absolute, np.add, np.multiply, np.divide, np.subtract, np.square, np.sqrt, np.reciprocal][int(rng.integers(11))]
    args = [a] * u.nin
    mon.ctx.update(operation='%s of plain arrays' % u.__name__)
    try: u(*args, out=o)
    except Exception: mon.same('plain arrays into an object', o.view(np.ndarray), w); mon.eq('plain arrays into an object', o.s, s)
    else: mon.close('plain arrays into an object', o.view(np.ndarray), u(*args), 1e-13 * (1 + np.abs(u(*args))))


WORKLOADS = [W('modes_out', modes_out, 1760, 40000), W('grid_out', grid_out, 2000, 40000), W('augmented', augmented, 1840, 40000), W('overlap', overlap, 900, 20000)]
