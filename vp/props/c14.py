"""C14: spin weights and values through random histories; meaningless operations are refused and change nothing."""
import copy, pickle
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W
from .c12 import product_b
from .c13 import conj_modes

RULE = ("case = one random history of operations over a pool of Modes and Grid objects with shadow values, spin weights and ell ranges; after every step the "
        "new object is compared with the mathematics and every other object must be unchanged, bit for bit; illegal operations are mixed in; "
        "distinct = ordered pairs of consecutive operations, and (illegal operation, kind, spin situation)")
ASSUMPTIONS = ["objects in one history share their leading shape and (mostly) grid size", "a step is judged against the actual operands of that step, with 1e-12 relative tolerance"]
REQUIRED = ['M add', 'M sub', 'M mul', 'M conj', 'M scale', 'M div', 'M neg', 'M eth', 'M ethbar', 'M grid', 'M trunc', 'M iadd', 'M imul', 'M copy', 'G add', 'G sub',
            'G mul', 'G div', 'G conj', 'G abs', 'G square', 'G recip', 'G power', 'G sqrt', 'G scale', 'G modes', 'G iadd', 'G imul', 'M out', 'G out', 'refused', 'bystanders']
LEADS = [(), (2,), (3,), (2, 2), (), (1,), (2,), (2, 1)]
MAXS = 5


class E_:
    """pool entry"""
    def __init__(self, kind, obj, s, L=None, band=None):
        self.kind, self.obj, self.s, self.L, self.band = kind, obj, s, L, band
        self.snap = np.array(obj.view(np.ndarray)); self.meta = (obj.s, obj.shape, getattr(obj, 'ell_max', None))

    def unchanged(self, mon, kind, **info):
        o = self.obj
        mon.eq(kind, (o.s, o.shape, getattr(o, 'ell_max', None)), self.meta, **info)
        mon.same(kind, o.view(np.ndarray), self.snap, **info)


def ladder(w, s, L, which):
    lm = ref.LMarr(L)[:, 0]
    if which == 'eth': s2, f = s + 1, np.sqrt(np.maximum((lm - s) * (lm + s + 1.), 0))
    else: s2, f = s - 1, -np.sqrt(np.maximum((lm + s) * (lm - s + 1.), 0))
    f = np.where((lm >= abs(s)) & (lm >= abs(s2)), f, 0.0)
    return w * f, s2


def history(mon, rng, idx, tier):
    lead = LEADS[idx % 8]
    if lead and rng.random() < .02: lead = gens.lengthen(rng, lead)
    n = 2 * int(rng.integers(5, 8)) + 1
    nt, nph = n, n + (int(rng.integers(0, 3)) if rng.random() < .3 else 0)
    pool, trace = [], []
    mon.ctx.update(lead=lead, n=(nt, nph), history=trace)

    def new_modes(s=None, L=None):
        s = int(rng.integers(-3, 4)) if s is None else s
        m, w, s, L = mg.modes(rng, s=s, shape=lead, L=int(rng.integers(max(abs(s), 1), 5)) if L is None else L)
        return E_('M', m, s, L)

    def new_grid(s=None, sh=None):
        s = int(rng.integers(-3, 4)) if s is None else s
        a, b = sh or (nt, nph)
        return E_('G', sf.Grid(mg.gridvals(rng, s, a, b, lead), spin_weight=s), s)

    for _ in range(2): pool.append(new_modes()); pool.append(new_grid())
    pool.append(new_modes(s=pool[0].s)); pool.append(new_grid(s=pool[1].s))

    def choose(kind, same=None):
        c = [e for e in pool if e.kind == kind and (same is None or e.s == same)]
        return c[int(rng.integers(len(c)))] if c else None

    def M(kind, got, w, s, L, tol=None):
        if tol is None: tol = 1e-12 * (mg.lscale(w) + 1e-280)
        mg.check_modes(mon, kind, got, w, s, L, tol)
        return E_('M', got, s, L)

    def G(kind, got, v, s, band=None, tol=None):
        mg.check_grid(mon, kind, got, v, s, 1e-12 * (np.abs(v) + 1e-280) if tol is None else tol)
        return E_('G', got, s, band=band)

    legal = ['M add', 'M sub', 'M mul', 'M conj', 'M scale', 'M div', 'M neg', 'M eth', 'M ethbar', 'M grid', 'M trunc', 'M iadd', 'M isub', 'M imul', 'M idiv', 'M conj!', 'M copy',
             'G add', 'G sub', 'G mul', 'G div', 'G conj', 'G conj!', 'G abs', 'G square', 'G recip', 'G power', 'G sqrt', 'G scale', 'G modes', 'G neg', 'G copy',
             'G iadd', 'G imul', 'G idiv', 'G const', 'M out', 'G out', 'M out']
    sc = lambda: complex(rng.uniform(.5, 2), rng.uniform(-1, 1)) if rng.random() < .6 else float(rng.uniform(.5, 2))
    prev = None
    for step in range(16):
        before = list(pool)
        if rng.random() < .25:
            refuse(mon, rng, pool, choose, new_modes, new_grid, trace, lead)
            for e in pool: e.unchanged(mon, 'bystanders')
            continue
        op = legal[int(rng.integers(len(legal)))]
        kind = op[0]
        a = choose(kind); o = a.obj; w = a.snap; s = a.s; L = a.L
        trace.append((op, s, L)); trace[:] = trace[-16:]
        touched = None
        res = None
        victim = a                # the pool entry an in-place operation changes
        if op in ('M add', 'M sub', 'M iadd', 'M isub'):
            b = choose('M', s)
            if op in ('M iadd', 'M isub'):
                if b.L > L: continue
                t = o
                if op == 'M iadd': t += b.obj
                else: t -= b.obj
                ww = w + mg.pad(b.snap, L) if op == 'M iadd' else w - mg.pad(b.snap, L)
                tt = 1e-13 * (np.abs(w) + np.abs(mg.pad(b.snap, L)) + 1e-280)
                pool[pool.index(a)] = touched = M('M iadd', t, ww, s, L, tt)
                mg.check_modes(mon, 'M iadd', o, ww, s, L, tt)
            else:
                LL = max(L, b.L); pa, pb = mg.pad(w, LL), mg.pad(b.snap, LL); t = 1e-13 * (np.abs(pa) + np.abs(pb) + 1e-280)
                res = M(op, o + b.obj if op == 'M add' else o - b.obj, pa + pb if op == 'M add' else pa - pb, s, LL, t)
        elif op == 'M mul':
            b = choose('M')
            if L + b.L > 9 or abs(s + b.s) > MAXS: continue
            res = M(op, o * b.obj, mg.pad(product_b(w, s, L, b.snap, b.s, b.L), L + b.L) * (np.arange((L + b.L + 1) ** 2) >= (s + b.s) ** 2), s + b.s, L + b.L,
                    1e-12 * (mg.lscale(w) * mg.lscale(b.snap) + 1e-280))
        elif op == 'M conj': res = M(op, [lambda: o.conjugate(), lambda: o.bar, lambda: np.conjugate(o)][step % 3](), conj_modes(w, s, L), -s, L)
        elif op == 'M conj!': o.conjugate(inplace=True); pool[pool.index(a)] = touched = M('M conj', o, conj_modes(w, s, L), -s, L)
        elif op == 'M scale': c = sc(); res = M(op, o * c if rng.random() < .5 else c * o, w * c, s, L)
        elif op == 'M div': c = sc(); res = M(op, o / c, w / c, s, L)
        elif op == 'M neg': res = M(op, -o, -w, s, L)
        elif op in ('M imul', 'M idiv'):
            c = sc(); t = o
            if op == 'M imul': t *= c
            else: t /= c
            ww = w * c if op == 'M imul' else w / c
            M('M imul', o, ww, s, L)
            pool[pool.index(a)] = touched = M('M imul', t, ww, s, L)
        elif op in ('M eth', 'M ethbar'):
            if abs(s) >= MAXS: continue
            ww, s2 = ladder(w, s, L, op[2:])
            res = M(op, o.eth if op == 'M eth' and not callable(getattr(o, 'eth')) else o.eth() if op == 'M eth' else o.ethbar() if callable(o.ethbar) else o.ethbar, ww, s2, L)
        elif op == 'M grid':
            if 2 * L + 1 > min(nt, nph) or L < 1 or 2 * abs(s) + 1 > min(nt, nph): continue
            g = o.grid(nt, nph)
            tp = np.stack(np.meshgrid(np.pi * np.arange(nt) / (nt - 1), 2 * np.pi * np.arange(nph) / nph, indexing='ij'), -1)
            v = np.einsum('...k,tpk->...tp', w, ref.basis(ref.from_theta_phi(tp[..., 0], tp[..., 1]), s, L))
            mg.check_grid(mon, op, g, v, s, 1e-11 * (mg.lscale(w, 2) + 1e-280))
            res = E_('G', g, s, band=L)
        elif op == 'M trunc': k = int(rng.integers(0, L + 1)); res = M(op, o.truncate_ell(k).copy(), w[..., :(k + 1) ** 2], s, k)
        elif op in ('M copy', 'G copy'):
            c = [lambda: o.copy(), lambda: copy.deepcopy(o), lambda: pickle.loads(pickle.dumps(o)), lambda: copy.copy(o)][step % 4]()
            res = M(op, c, w, s, L) if kind == 'M' else G(op, c, w, s, a.band)
        elif op in ('G add', 'G sub'):
            b = choose('G', s); res = G(op, o + b.obj if op == 'G add' else o - b.obj, w + b.snap if op == 'G add' else w - b.snap, s, tol=1e-13 * (np.abs(w) + np.abs(b.snap)) + 1e-290)
        elif op in ('G mul', 'G div'):
            b = choose('G'); s2 = s + b.s if op == 'G mul' else s - b.s
            if abs(s2) > MAXS or (op == 'G div' and np.abs(b.snap).min() < 1e-6): continue
            res = G(op, o * b.obj if op == 'G mul' else o / b.obj, w * b.snap if op == 'G mul' else w / b.snap, s2)
        elif op == 'G iadd': b = choose('G', s); t = o; t += b.obj; tt = 1e-13 * (np.abs(w) + np.abs(b.snap)) + 1e-290; G(op, o, w + b.snap, s, tol=tt); pool[pool.index(a)] = touched = G(op, t, w + b.snap, s, tol=tt)
        elif op in ('G imul', 'G idiv'):
            b = choose('G'); s2 = s + b.s if op == 'G imul' else s - b.s
            if abs(s2) > MAXS or np.abs(b.snap).min() < 1e-6: continue
            t = o; v = w * b.snap if op == 'G imul' else w / b.snap
            if op == 'G imul': t *= b.obj
            else: t /= b.obj
            G('G imul', o, v, s2); pool[pool.index(a)] = touched = G('G imul', t, v, s2)
        elif op == 'G conj': res = G(op, [lambda: o.conjugate(), lambda: o.bar, lambda: np.conjugate(o)][step % 3](), w.conj(), -s)
        elif op == 'G conj!': o.conjugate(inplace=True); pool[pool.index(a)] = touched = G('G conj', o, w.conj(), -s)
        elif op == 'G abs': res = G(op, [lambda: abs(o), lambda: np.absolute(o), lambda: o.absolute()][step % 3]().astype(complex), np.abs(w).astype(complex), 0)
        elif op == 'G square':
            if abs(2 * s) > MAXS: continue
            res = G(op, np.square(o) if rng.random() < .5 else o ** 2, w * w, 2 * s)
        elif op == 'G recip':
            if np.abs(w).min() < 1e-6: continue
            res = G(op, np.reciprocal(o) if rng.random() < .5 else 1 / o, 1 / w, -s)
        elif op == 'G power':
            k = int(rng.integers(-3, 4))
            if abs(k * s) > MAXS or np.abs(w).min() < 1e-3: continue
            res = G(op, np.power(o, k) if rng.random() < .5 else o ** k, w ** k, k * s)
        elif op == 'G sqrt':
            if s % 2: continue
            res = G(op, np.sqrt(o), np.sqrt(w), s // 2)
        elif op == 'G scale': c = sc(); res = G(op, o * c if rng.random() < .5 else c * o, w * c, s, a.band)
        elif op == 'G neg': res = G(op, -o, -w, s, a.band)
        elif op == 'G const':
            if s: continue
            c = sc(); res = G(op, o + c, w + c, 0, tol=1e-13 * (np.abs(w) + abs(c)))
        elif op in ('M out', 'G out'):
            # the result goes into another member of the pool (or into the operand itself), which takes over values and metadata; nothing else may change, now or later
            victim = choose(kind)
            if victim.obj.shape != o.shape or victim.L != L: victim = a
            u = ['neg', 'pos', 'conj', 'scale', 'rscale', 'div', 'add', 'sub'][int(rng.integers(8))]
            c = sc(); y = victim.obj
            b = choose(kind, s) if u in ('add', 'sub') else None
            if b is not None and b.L != L: b = a
            tt = None
            if u == 'neg': r = np.negative(o, out=y); ww, s2 = -w, s
            elif u == 'pos': r = np.positive(o, out=y); ww, s2 = +w, s
            elif u == 'conj': r = np.conjugate(o, out=y); ww, s2 = (conj_modes(w, s, L) if kind == 'M' else w.conj()), -s
            elif u == 'scale': r = np.multiply(o, c, out=y); ww, s2 = w * c, s
            elif u == 'rscale': r = np.multiply(c, o, out=y); ww, s2 = w * c, s
            elif u == 'div': r = np.divide(o, c, out=y); ww, s2 = w / c, s
            else:
                f = np.add if u == 'add' else np.subtract
                tt = 1e-13 * (np.abs(w) + np.abs(b.snap) + 1e-280)
                ww, s2 = f(w, b.snap), s
                r = f(o, b.obj, out=y)
            if kind == 'M': M(op, r, ww, s2, L, tt); touched = M(op, y, ww, s2, L, tt)
            else: G(op, r, ww, s2, tol=tt); touched = G(op, y, ww, s2, tol=tt)
            pool[pool.index(victim)] = touched
            mon.region('out: ' + u + (' into an operand' if victim is a or victim is b else ' into another object'))
        elif op == 'G modes':
            if a.band is None or nt != nph: continue
            m = o.modes()
            LL = (nt - 1) // 2
            B = a.band
            th = np.pi * np.arange(nt) / (nt - 1)
            # what the function is was established when the grid was made; here: evaluate the recovered modes on the same grid
            tp = np.stack(np.meshgrid(th, 2 * np.pi * np.arange(nph) / nph, indexing='ij'), -1)
            back = np.einsum('...k,tpk->...tp', m.ndarray, ref.basis(ref.from_theta_phi(tp[..., 0], tp[..., 1]), s, LL))
            mg.check_meta(mon, op, m, s, LL, lead)
            sc_ = np.abs(w).max() + 1e-280
            mon.close(op, back, w, 1e-11 * sc_)
            mon.close(op, m.ndarray[..., (B + 1) ** 2:], np.zeros(m.ndarray[..., (B + 1) ** 2:].shape), 1e-11 * sc_)
            res = E_('M', m.truncate_ell(min(4, LL)).copy(), s, min(4, LL))
            res.meta = (s, res.obj.shape, min(4, LL)); res.unchanged(mon, op)
        for e in before:
            if touched is not None and e is victim: continue
            e.unchanged(mon, 'bystanders', op=op)
        if touched is not None and not 1e-8 < np.abs(touched.snap).max() < 1e8: pool.remove(touched)
        if res is not None and 1e-8 < np.abs(res.snap).max() < 1e8:
            pool.append(res)
        if prev: mon.key('pair', prev, op)
        prev = op
        while len(pool) > 10: pool.pop(int(rng.integers(len(pool))))
        for k in 'MG':
            while sum(e.kind == k for e in pool) < 2: pool.append(new_modes() if k == 'M' else new_grid())
    mon.sample(lead=lead, grid=(nt, nph), history=[t[0] for t in trace])


BADU = [np.exp, np.log, np.sin, np.cos, np.tan, np.sinh, np.tanh, np.arcsin, np.arctan, np.log10, np.expm1, np.log1p, np.exp2, np.cosh, np.sign, np.cbrt, np.floor, np.rint]


def inplace(o, f):
    """the augmented-assignment forms"""
    def run(): return f(o)
    return run


def iadd(x, y): x += y; return x
def isub(x, y): x -= y; return x
def imul(x, y): x *= y; return x
def idiv(x, y): x /= y; return x


def constant_array(rng, kind, o, lead):
    """an array of constants that are not all zero, in one of the shapes that broadcast against the data"""
    tail = o.shape[len(lead):]
    sh = [lead, lead, lead, lead[1:], lead + (1,) * len(tail), lead + tail, tail, (1,), (1,) * len(tail), ()][int(rng.integers(10))]
    c = rng.normal(size=sh)
    if rng.random() < .3: c = c + 1j * rng.normal(size=sh)
    if rng.random() < .3: c = np.sign(c.real).astype(int)
    c = np.array(c)
    if c.size > 1 and rng.random() < .6:            # some of the constants are zero, not all
        keep = int(rng.integers(c.size)); f = c.reshape(-1); v = f[keep]; f[rng.random(c.size) < .6] = 0; f[keep] = v
    return c


def refuse(mon, rng, pool, choose, new_modes, new_grid, trace, lead):
    """one meaningless operation: must raise, must change nothing"""
    kind = 'MG'[int(rng.integers(2))]
    a = choose(kind); o = a.obj; s = a.s
    dif = choose(kind, None)
    k = ['spin', 'const', 'dividebymodes', 'parts', 'toomany', 'shape', 'ufunc', 'mixed', 'power', 'sqrt', 'bigspin', 'ufunc2', 'badbroadcast', 'method'][int(rng.integers(14))]
    trace.append(('refuse ' + k, kind, s)); trace[:] = trace[-16:]
    other = None
    if k == 'spin':
        ds = int(rng.choice([-2, -1, 1, 2]))
        if kind == 'M': other = new_modes(s + ds, L=max(abs(s + ds), a.L) if rng.random() < .5 else a.L)
        else: other = new_grid(s + ds) if 2 * abs(s + ds) + 1 <= min(o.shape[-2:]) else new_grid(s - ds)
        if s == 0 and rng.random() < .3:      # opposite sign cannot differ from itself at 0
            pass
        x = other.obj
        fs = [lambda: o + x, lambda: o - x, lambda: x + o, lambda: np.add(o, x), lambda: np.subtract(o, x), lambda: o.add(x), lambda: o.subtract(x), lambda: iadd(o, x), lambda: isub(o, x)]
        if kind == 'G': fs += [lambda: np.add(o, x, out=o)]
    elif k == 'const':
        c = [lambda: 1, lambda: -2.5, lambda: 1j, lambda: np.float64(3), lambda: 1e-300, lambda: 1e-300j, lambda: constant_array(rng, kind, o, lead), lambda: constant_array(rng, kind, o, lead)][int(rng.integers(8))]()
        if kind == 'G' and s == 0: return
        mon.ctx.update(constant=c)
        fs = [lambda: o + c, lambda: c + o, lambda: o - c, lambda: c - o, lambda: o.add(c), lambda: o.subtract(c), lambda: iadd(o, c), lambda: isub(o, c), lambda: np.add(o, c)]
    elif k == 'dividebymodes':
        if kind == 'G': return
        x = dif.obj
        fs = [lambda: o / x, lambda: 1 / o, lambda: np.divide(2.0, o), lambda: o.divide(x), lambda: idiv(o, x), lambda: np.true_divide(o, x), lambda: np.reciprocal(o), lambda: o ** -1, lambda: o ** 2, lambda: np.ones(lead) / o]
    elif k == 'parts':
        if s == 0: return
        fs = [lambda: o.real, lambda: o.imag]
    elif k == 'toomany':          # a factor with as many axes as the data acts on individual weights or values
        f = np.asarray(rng.normal(size=o.shape) + 2)
        if kind == 'G' and rng.random() < .5: f = f[..., 0]
        fs = [lambda: o * f, lambda: f * o, lambda: o / f, lambda: o.multiply(f), lambda: imul(o, f), lambda: idiv(o, f), lambda: np.multiply(o, f), lambda: np.multiply(f, o)]
        if kind == 'G': fs += [lambda: o.divide(f), lambda: f / o]
        fs += [lambda: o + f, lambda: f + o, lambda: o - f, lambda: f - o, lambda: np.add(o, f), lambda: np.subtract(f, o), lambda: iadd(o, f), lambda: isub(o, f)]
        if not lead and kind == 'G': fs += [lambda: o + np.ones(2), lambda: np.ones((1, 1)) - o]
    elif k == 'shape':
        if kind == 'M': return
        a_, b_ = o.shape[-2:]
        d = [(1, 0), (0, 1), (2, 2), (1, 1)][int(rng.integers(4))]
        other = new_grid(s, (a_ + d[0], b_ + d[1])); x = other.obj
        if rng.random() < .25 and a_ != b_: other = new_grid(s, (b_, a_)); x = other.obj
        if s == 0 and rng.random() < .5: other = new_grid(0, [(a_, 1), (1, b_), (1, 1)][int(rng.integers(3))]); x = other.obj       # would broadcast as plain arrays
        fs = [lambda: o + x, lambda: o - x, lambda: o * x, lambda: o / x, lambda: o.add(x), lambda: o.subtract(x), lambda: o.multiply(x), lambda: o.divide(x), lambda: iadd(o, x), lambda: imul(o, x), lambda: idiv(o, x), lambda: x + o,
              lambda: x.add(o), lambda: x.subtract(o), lambda: x.multiply(o), lambda: x.divide(o)]
    elif k == 'ufunc':
        u = BADU[int(rng.integers(len(BADU)))]
        fs = [lambda: u(o), lambda: u(o, out=np.empty(o.shape, complex)), lambda: u(o, out=o)]
    elif k == 'ufunc2':
        u = [np.maximum, np.minimum, np.arctan2, np.hypot, np.floor_divide, np.fmod, np.remainder, np.heaviside, np.logaddexp, np.copysign, np.float_power][int(rng.integers(11))]
        x = dif.obj
        fs = [lambda: u(o, 2.0), lambda: u(2.0, o), lambda: u(o, o)]
        if x.shape == o.shape: fs.append(lambda: u(o, x))
    elif k == 'method':           # reductions and the like would act on individual weights or values
        u = [np.add, np.multiply, np.subtract][int(rng.integers(3))]
        fs = [lambda: u.outer(o, o), lambda: u.outer(o, 2.0), lambda: u.reduce(o), lambda: u.accumulate(o), lambda: u.reduceat(o, [0]), lambda: u.at(o, [0], 2.0), lambda: np.negative.at(o, [0]),
              lambda: o.sum(), lambda: np.sum(o), lambda: o.cumsum(), lambda: o.prod(), lambda: o.mean()]
    elif k == 'mixed':
        x = choose('G' if kind == 'M' else 'M').obj
        fs = [lambda: o + x, lambda: o * x, lambda: o / x, lambda: o - x, lambda: imul(o, x)]
        # (Modes and Grid of the same leading shape never describe a meaningful product)
    elif k == 'power':
        p = [0.5000001, 1.5, -0.25, 1j, np.ones(o.shape), 2.0000001, 0.3, np.array([1.0, 2.0])][int(rng.integers(8))]
        fs = [lambda: np.power(o, p), lambda: o ** p]
        if not np.ndim(p): fs += [lambda: np.power(o, p, out=o)]
        fs += [lambda: 2.0 ** o, lambda: np.power(2.0, o), lambda: np.power(o, o)]
    elif k == 'sqrt':
        if kind == 'G' and s % 2 == 0: return
        fs = [lambda: np.sqrt(o), lambda: o ** 0.5, lambda: np.sqrt(o, out=o)]
    elif k == 'bigspin':
        if kind == 'M': return
        n_ = min(o.shape[-2:])
        lim = (n_ - 1) // 2
        if s == 0: return
        other = E_('G', sf.Grid(mg.gridvals(rng, 0, *o.shape[-2:], lead), spin_weight=(lim if s > 0 else -lim)), lim)
        x = other.obj; p = lim // abs(s) + 1
        y = x.conjugate()
        fs = [lambda: o * x, lambda: o / y, lambda: o.multiply(x), lambda: o.divide(y), lambda: imul(o, x), lambda: idiv(o, y), lambda: np.power(o, p), lambda: o ** -p if p > 2 else o * x, lambda: np.multiply(o, x, out=o), lambda: np.power(o, p, out=o), lambda: np.square(x), lambda: imul(x, o)]
    else:
        if not lead: return
        f = np.ones((lead[0] + 1,) + lead[1:]) * 2 if lead[0] > 1 else np.ones((2,) * (len(lead) + 1))
        fs = [lambda: o * f, lambda: o / f, lambda: f * o, lambda: o.multiply(f), lambda: imul(o, f)]
    for i in rng.permutation(len(fs))[:6]:
        mon.ctx.update(refused=k, form=int(i), kind=kind, s=s, ell_max=a.L)
        mon.raises('refused', Exception, fs[i], msg='a meaningless operation was accepted')
        mon.key('refuse', k, int(i), kind, (s > 0) - (s < 0))
    a.unchanged(mon, 'operands unchanged')
    if other is not None: other.unchanged(mon, 'operands unchanged')
    mon.region('refused: ' + k)


WORKLOADS = [W('history', history, 1600, 40000)]
