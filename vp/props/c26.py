"""C26: comparisons, finiteness tests and magnitudes of Modes and Grid objects."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one Modes or Grid object (some weights or values non-finite, zero, or one unit in the last place away from the other operand's) put through every comparison, "
        "finiteness test, logical reduction and np.abs, in function and operator form, with other objects, arrays and numbers on either side, with and without out=, compared with the same "
        "operation on plain arrays; distinct = (kind, operation, form of the other operand, leading axes)")
ASSUMPTIONS = ["the two operands have the same ell range or grid size", "the order of complex numbers is numpy's (real parts first)"]
REQUIRED = ['equal', 'order', 'order refused', 'finite', 'logical', 'reduction', 'closeness', 'magnitude', 'out', 'operands unchanged']
ORDER = [(np.greater, lambda a, b: a > b), (np.greater_equal, lambda a, b: a >= b), (np.less, lambda a, b: a < b), (np.less_equal, lambda a, b: a <= b)]
EQ = [(np.equal, lambda a, b: a == b), (np.not_equal, lambda a, b: a != b)]
LOG = [(np.logical_and, None), (np.logical_or, None)]
LEADS = [(), (3,), (2, 2), (1,), (4,), (2, 1, 2), (), (2,)]


def plain_bool(mon, kind, r, want, **info):
    mon.ok(kind + ' is plain', type(r) in (np.ndarray, np.bool_) and r.dtype == bool, got=type(r), **info)
    mon.same(kind, r, want, **info)


def magnitudes(mon, got, want):
    ok = np.isfinite(want)
    mon.same('magnitude', np.where(ok, 0, got), np.where(ok, 0, want)); mon.close('magnitude', np.where(ok, got, 0), np.where(ok, want, 0), 2e-15 * np.where(ok, want, 0) + 1e-300)


def case(mon, rng, idx, tier):
    kind = 'MG'[idx % 2]; lead = LEADS[idx // 2 % 8]
    if lead and rng.random() < .03: lead = gens.lengthen(rng, lead)
    if kind == 'M':
        s = mg.spin(rng, 4); L = int(rng.integers(max(abs(s), 1), 6)); tail = ((L + 1) ** 2,); lo = s * s
        mk = lambda v, s=s: sf.Modes(np.array(v), spin_weight=s)
    else:
        s = mg.spin(rng, 4); tail = mg.grid_size(rng, s, 4); lo = 0
        mk = lambda v, s=s: sf.Grid(np.array(v), spin_weight=s)
    def values(sh):
        v = gens.cplx(rng, sh + tail)
        v = np.array(v)
        if rng.random() < .3: v = np.round(v * 4 / max(np.abs(v).max(), 1e-300)) + 0j
        k = rng.random(v.shape)
        v[k < .1] = 0
        if rng.random() < .5:
            for x in (np.inf, -np.inf, np.nan, complex(0, np.inf), complex(0, -np.inf), complex(0, np.nan), complex(np.nan, np.inf), complex(1, -np.inf)):
                v[rng.random(v.shape) < .03] = x
        if rng.random() < .25:                                   # finite, but with moduli that overflow or vanish
            for x in (1.7e308 + 1.7e308j, -1.6e308 - 1e308j, 5e-324, -5e-324j, 1.7e308, 2.2e-308 - 1e-310j, -0.0, complex(-0.0, -0.0)): v[rng.random(v.shape) < .04] = x
        if kind == 'M': v[..., :lo] = 0
        return v
    a = values(lead)
    A = mk(a)
    # the other operand: close to the first one
    form = ['same', 'same', 'broadcast', 'array', 'rarray', 'number', 'list', 'single'][int(rng.integers(8))]
    sh2 = lead
    if form == 'broadcast' and lead: sh2 = tuple(1 if rng.random() < .5 else n for n in lead)[int(rng.integers(len(lead) + 1)):]
    if form == 'single': sh2 = ()
    b = values(sh2)
    if sh2 == lead:
        k = rng.random(b.shape); b[k < .5] = a[k < .5]
        with np.errstate(all='ignore'):
            i = (k >= .5) & (k < .6); b[i] = np.nextafter(a.real, np.inf)[i] + 1j * a.imag[i]
            i = (k >= .6) & (k < .7); b.real[i] = a.real[i]; b.imag[i] = np.nextafter(a.imag, -np.inf)[i]
        if kind == 'M': b[..., :lo] = 0
        if rng.random() < .15: b[...] = a
    B = mk(b, s if rng.random() < .5 or kind == 'M' else 0)
    if form in ('array', 'rarray'): B = b
    elif form == 'list': B = b.tolist()
    elif form == 'number': b = B = [0, 1.5, 1j, a.reshape(-1)[int(rng.integers(a.size))], np.inf, -0.0, True, np.nan][int(rng.integers(8))]
    mon.ctx.update(kind=kind, s=s, a=a, other=form, b=b)
    pairs = [(A, B, a, b)]
    if form in ('rarray', 'number', 'list') or rng.random() < .3: pairs.append((B, A, b, a))
    with np.errstate(all='ignore'):
        for x, y, px, py in pairs:
            for name, ops in (('equal', EQ), ('order', ORDER), ('logical', LOG)):
                for u, f in ops:
                    if name == 'order' and kind == 'M':
                        mon.raises('order refused', Exception, u, x, y); continue
                    want = u(px, py)
                    mon.ctx.update(op=u.__name__)
                    plain_bool(mon, name, u(x, y), want)
                    if f is not None and not (isinstance(x, np.generic) or isinstance(x, list)): plain_bool(mon, name, f(x, y), want)
                    o = np.array(rng.random(want.shape) < .5)
                    r = u(x, y, out=o)
                    mon.ok('out', r is o); mon.same('out', o, want)
                    w = np.array(rng.random(want.shape) < .5); o2 = np.zeros(want.shape, bool)
                    u(x, y, where=w, out=o2); mon.same('out', o2, want & w)
                    mon.key(kind, u.__name__, form, len(lead))
            mon.ctx.update(op='array_equal')
            if form not in ('number',):
                mon.eq('closeness', bool(np.array_equal(x, y)), bool(np.array_equal(px, py)))
        for u in (np.isfinite, np.isinf, np.isnan):
            mon.ctx.update(op=u.__name__)
            want = u(a)
            plain_bool(mon, 'finite', u(A), want)
            o = np.array(rng.random(want.shape) < .5); r = u(A, out=o)
            mon.ok('out', r is o); mon.same('out', o, want)
            mon.eq('finite', bool(np.all(u(A))), bool(np.all(want))); mon.eq('finite', bool(u(A).any()), bool(want.any()))
            mon.key(kind, u.__name__, '', len(lead))
        fin = np.isfinite(a)
        # logical reductions over any axis
        for ax in [None] + list(range(-a.ndim, a.ndim)) + ([tuple(range(a.ndim - len(tail), a.ndim))] if a.ndim > 1 else []):
            for nm in ('all', 'any'):
                mon.ctx.update(op='%s axis %s' % (nm, ax))
                want = getattr(np, nm)(a, axis=ax)
                for r in (getattr(np, nm)(A, axis=ax), getattr(A, nm)(axis=ax)): mon.same('reduction', np.asarray(r), want)
        mon.key(kind, 'reduction', '', len(lead))
        # closeness of finite values
        x = np.where(fin, a, 0); y = x * (1 + 1e-9 * rng.normal(size=x.shape)); z = y.copy(); z.reshape(-1)[int(rng.integers(z.size))] += np.abs(x).max() * 1e-3 + 1e-3
        if kind == 'M': z[..., :lo] = 0
        X, Y, Z = mk(x), mk(y), mk(z)
        for p, P in ((y, Y), (z, Z)):
            mon.ctx.update(op='allclose')
            for kw in ({}, dict(rtol=1e-7, atol=0.0), dict(rtol=1e-12, atol=0.0), dict(rtol=0.0, atol=1e-6)):
                mon.eq('closeness', bool(np.allclose(X, P, **kw)), bool(np.allclose(x, p, **kw)))
                mon.same('closeness', np.asarray(np.isclose(X, P, **kw)), np.isclose(x, p, **kw))
        mon.key(kind, 'allclose', '', len(lead))
        if kind == 'M':
            want = np.abs(a)
            for nm, r in (('np.abs', np.abs(A)), ('abs', abs(A)), ('np.absolute', np.absolute(A))):
                mon.ctx.update(op=nm)
                mon.ok('magnitude is plain', type(r) is np.ndarray and r.dtype == float, got=type(r)); magnitudes(mon, r, want)
            mon.ctx.update(op='np.abs out=')
            o = rng.normal(size=want.shape); r = np.abs(A, out=o)
            mon.ok('magnitude', r is o); magnitudes(mon, o, want)
        else:
            for nm, r in (('np.abs', np.abs(A)), ('abs', abs(A)), ('absolute()', A.absolute())):
                mon.ctx.update(op=nm)
                mon.ok('magnitude', type(r) is sf.Grid and r.s == 0); magnitudes(mon, np.array(r.view(np.ndarray)).real, np.abs(a))
    mon.eq('operands unchanged', (A.s, type(A)), (s, sf.Modes if kind == 'M' else sf.Grid)); mon.same('operands unchanged', A.view(np.ndarray), a)
    if isinstance(B, np.ndarray): mon.same('operands unchanged', B.view(np.ndarray), b)
    mon.sample(kind=kind, spin=s, shape=a.shape, other=form)


WORKLOADS = [W('compare', case, 1200, 20000)]
