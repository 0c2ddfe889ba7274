"""C12: multiplying mode expansions multiplies the functions."""
import copy, pickle
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one pair of expansions multiplied through one entry point (operator, ufunc, method, array function) with one truncation; the result is "
        "compared with the quadrature projection of the pointwise product and with the product of the values at random rotors; "
        "distinct = (entry, truncator, s_f, s_g, ell_max_f, ell_max_g, broadcasting class)")
ASSUMPTIONS = ["ell_max of the factors up to 8 (quick) or 14 (thorough) mode by mode; values of products with ell_max up to 17, or one factor up to 40 and the other up to 3", "tolerance 2e-13 (1+min ell_max) times the product of the factors' norms"]
REQUIRED = ['product modes', 'product value', 'product metadata', 'truncated product', 'array multiply', 'array multiply ranges', 'stored truncator',
            'scalar factor', 'array factor', 'product zero below |s|', 'inputs kept', 'above the sum', 'inherited truncator']
# broadcasting class: leading shapes of f and g (one per worker, because each pair of ranks is compiled separately)
CLASSES = [((), ()), ((3,), (3,)), ((), (4,)), ((4,), ()), ((2, 3), (3,)), ((2, 1), (1, 3)), ((3,), (1,)), ((2,), (3, 1))]


def cls(idx, rng=None):
    f, g = CLASSES[idx % len(CLASSES)]
    if rng is not None and rng.random() < .04:           # the same ranks, with one long axis
        n = int(rng.integers(20, 300))
        f, g = (tuple(n if k == 3 else k for k in x) for x in (f, g)) if (3 in f or 3 in g) else (tuple(n if k == 4 else k for k in x) for x in (f, g))
    return f, g


def tolerance(wf, wg, Lf, Lg):
    return 2e-13 * (1 + min(Lf, Lg)) * np.maximum(mg.lscale(wf) * mg.lscale(wg), 1e-290)


def pick(rng, shape, tier, **kw):
    top = 6 if rng.random() < .8 else (8 if tier == 'quick' else 14)
    return mg.modes(rng, shape=shape, maxL=top, **kw)


TR = ['none', 'none', 'min', 'max', 'sum', 'fixed', 'zero', 'beyond', 'first', 'second', 'difference']


def trunc(rng, which, Lf, Lg):
    """(callable or None, expected ell_max)"""
    if which == 'none': return None, Lf + Lg
    if which == 'min': return min, min(Lf, Lg)
    if which == 'max': return max, max(Lf, Lg)
    if which == 'sum': return sum, Lf + Lg
    if which == 'zero': return (lambda t: 0), 0
    if which == 'first': return (lambda t: t[0]), Lf
    if which == 'second': return (lambda t: t[1]), Lg
    if which == 'difference': return (lambda t: max(0, t[0] - t[1])), max(0, Lf - Lg)
    k = int(rng.integers(0, Lf + Lg + 1)) if which == 'fixed' else Lf + Lg + int(rng.integers(1, 4))
    return (lambda t: k), k


def verify(mon, rng, r, wf, s1, Lf, wg, s2, Lg, L, tol, kind='product'):
    s = s1 + s2
    full = product_b(wf, s1, Lf, wg, s2, Lg)
    want = mg.pad(full, L).copy()
    want[..., :min(s * s, want.shape[-1])] = 0
    mg.check_modes(mon, kind, r, want, s, L, tol)
    mon.close('product modes', r.ndarray, want, tol)
    if L >= Lf + Lg:
        R = mg.test_rotors(rng, 4)
        v = values(wf, s1, Lf, R) * values(wg, s2, Lg, R)
        mon.close('product value', ref.evaluate(r.ndarray, s, L, R), v, tol * (L + 1) ** 2)
        if L > Lf + Lg:
            mon.close('above the sum', r.ndarray[..., (Lf + Lg + 1) ** 2:], np.zeros(r.ndarray[..., (Lf + Lg + 1) ** 2:].shape), tol)


def values(w, s, L, R):
    return ref.evaluate(w, s, L, R)       # rotor axis last, leading axes broadcast


def product_b(f, s1, Lf, g, s2, Lg):
    """quadrature with numpy broadcasting of the leading axes"""
    L = Lf + Lg; n = 2 * L + 1
    x, wt = np.polynomial.legendre.leggauss(L + 1)
    R = ref.from_theta_phi(np.arccos(x)[:, None], (2 * np.pi * np.arange(n) / n)[None, :])
    def vals(w, s, l):
        w = np.array(w); w[..., :min(s * s, w.shape[-1])] = 0
        return np.einsum('...k,tpk->...tp', w, ref.basis(R, s, l))
    V = vals(f, s1, Lf) * vals(g, s2, Lg)
    return np.einsum('...tp,tpk,t->...k', V, ref.basis(R, s1 + s2, L).conj(), wt) * (2 * np.pi / n)


def product(mon, rng, idx, tier):
    shf, shg = cls(idx, rng)
    kwf, kwg = {}, {}
    entry = ['*', 'np.multiply', '.multiply', '.multiply(t)', 'stored', 'stored2'][idx // 8 % 6]
    which = TR[int(rng.integers(len(TR)))]
    f, wf, s1, Lf = pick(rng, shf, tier)
    g, wg, s2, Lg = pick(rng, shg, tier)
    if rng.random() < .1:
        s2 = -s1; wg[..., :min(s1 * s1, wg.shape[-1])] = 0; g = sf.Modes(wg.copy(), spin_weight=s2)
    mon.ctx.update(entry=entry, s_f=s1, s_g=s2, ell_max_f=Lf, ell_max_g=Lg, shape_f=shf, shape_g=shg, truncator=which)
    tol = tolerance(wf, wg, Lf, Lg)
    L = Lf + Lg
    if entry == '*': r = f * g
    elif entry == 'np.multiply': r = np.multiply(f, g)
    elif entry == '.multiply': r = f.multiply(g)
    elif entry == '.multiply(t)':
        t, L = trunc(rng, which, Lf, Lg)
        r = f.multiply(g, truncator=t) if rng.random() < .5 else f.multiply(g, t)
    else:
        t, L1 = trunc(rng, which, Lf, Lg)
        f = sf.Modes(f, multiplication_truncator=t)
        if entry == 'stored':      # the other side has none: it means sum, and the larger wins
            L = max(L1, Lf + Lg)
        else:
            w2 = TR[int(rng.integers(len(TR)))]
            u, L2 = trunc(rng, w2, Lf, Lg)
            g = sf.Modes(g, multiplication_truncator=u); L = max(L1, L2)
            mon.ctx.update(truncator2=w2)
        k = int(rng.integers(4))
        if k == 0: r = f * g
        elif k == 1: r = np.multiply(f, g)
        elif k == 2: r = f.multiply(g)
        else: t3, L = trunc(rng, 'fixed', Lf, Lg); r = f.multiply(g, t3)       # an explicit argument overrides what is stored
        mon.ok('stored truncator', r.ell_max == L, got=r.ell_max, want=L)
    verify(mon, rng, r, wf, s1, Lf, wg, s2, Lg, L, tol, 'product' if L >= Lf + Lg else 'truncated product')
    mon.same('inputs kept', f.ndarray, wf); mon.same('inputs kept', g.ndarray, wg)
    mon.eq('inputs kept', (f.s, f.ell_max, g.s, g.ell_max), (s1, Lf, s2, Lg))
    mon.key(entry, which, s1, s2, Lf, Lg, idx % 8)
    mon.region('L %s sum' % ('<' if L < Lf + Lg else '=' if L == Lf + Lg else '>'))
    mon.sample(entry=entry, s_f=s1, s_g=s2, ell_max_f=Lf, ell_max_g=Lg, shapes=(shf, shg))


def arrays(mon, rng, idx, tier):
    """sf.multiply on plain arrays, any ell ranges, with junk below |s|"""
    shf, shg = cls(idx, rng)
    s1, s2 = mg.spin(rng, 4), mg.spin(rng, 4)
    af, ag = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    Lf, Lg = af + int(rng.integers(0, 5)), ag + int(rng.integers(0, 5))
    wf = gens.cplx(rng, shf + ((Lf + 1) ** 2 - af * af,)); wg = gens.cplx(rng, shg + ((Lg + 1) ** 2 - ag * ag,))
    mon.ctx.update(s_f=s1, s_g=s2, range_f=(af, Lf), range_g=(ag, Lg), shape_f=shf, shape_g=shg)
    kf, kg = wf.copy(), wg.copy()
    fg, a, L, s = sf.multiply(wf, af, Lf, s1, wg, ag, Lg, s2)
    mon.eq('array multiply ranges', (a, L, s), (0, Lf + Lg, s1 + s2))
    mon.same('inputs kept', wf, kf); mon.same('inputs kept', wg, kg)
    def full(w, a, s, L):
        z = np.zeros(w.shape[:-1] + ((L + 1) ** 2,), complex); z[..., a * a:] = w; z[..., :min(s * s, z.shape[-1])] = 0; return z
    want = product_b(full(wf, af, s1, Lf), s1, Lf, full(wg, ag, s2, Lg), s2, Lg)
    # modes of the product below its own |s| are zero
    want[..., :min(s * s, want.shape[-1])] = 0
    mon.close('array multiply', fg, want, tolerance(kf, kg, Lf, Lg))
    mon.key('array', s1, s2, af, Lf, ag, Lg, idx % 8)


def scalars(mon, rng, idx, tier):
    m, w, s, L = mg.modes(rng, maxdim=3)
    sh = w.shape[:-1]
    tol = 1e-14
    for c in [2, -3.5, 1j, 0, 0.0, 2 - 3j, np.float64(1.25), np.complex128(1 - 1j), np.int64(3), True, 1e-200, np.float32(0.5)]:
        for r in (m * c, c * m, np.multiply(m, c), np.multiply(c, m), m.multiply(c)):
            want = w * complex(c)
            mg.check_modes(mon, 'scalar factor', r, want, s, L, tol * (np.abs(want) + 1e-300))
    for _ in range(3):
        ash = tuple(int(n) if rng.random() < .7 else 1 for n in sh)[int(rng.integers(0, len(sh) + 1)):]
        a = rng.normal(size=ash) if rng.random() < .5 else gens.cplx(rng, ash)
        if rng.random() < .2: a = (np.round(a.real * 3)).astype(int)
        want = w * np.asarray(a)[..., None]
        for r in (m * a, np.multiply(m, a), np.multiply(a, m), m.multiply(a), np.asarray(a) * m):
            mg.check_modes(mon, 'array factor', r, want, s, L, tol * (np.abs(want) + 1e-300))
        mon.key('array factor', len(sh), np.shape(a) == sh, np.ndim(a))
    mon.same('inputs kept', m.ndarray, w)


def large(mon, rng, idx, tier):
    """high ell: the product's values at random rotors, and truncations of it"""
    Lf, Lg = int(rng.integers(8, 18)), int(rng.integers(0, 15))
    if idx % 4 == 3: Lf, Lg = int(rng.integers(18, 41)), int(rng.integers(0, 4))         # one factor of much higher ell
    if rng.random() < .5: Lf, Lg = Lg, Lf
    f, wf, s1, _ = mg.modes(rng, shape=(), L=Lf, s=mg.spin(rng, 8)); g, wg, s2, _ = mg.modes(rng, shape=(), L=Lg, s=mg.spin(rng, 8))
    L, s = Lf + Lg, s1 + s2
    mon.ctx.update(s_f=s1, s_g=s2, ell_max_f=Lf, ell_max_g=Lg)
    tol = tolerance(wf, wg, Lf, Lg)
    r = f * g
    mg.check_meta(mon, 'product', r, s, L, ())
    mon.ok('product zero below |s|', not np.any(r.ndarray[:s * s]))
    R = mg.test_rotors(rng, 8)
    mon.close('product value', ref.evaluate(r.ndarray, s, L, R), values(wf, s1, Lf, R) * values(wg, s2, Lg, R), tol * (L + 1))
    k = int(rng.integers(0, L))
    t = f.multiply(g, lambda t: k)
    mg.check_modes(mon, 'truncated product', t, r.ndarray[:(k + 1) ** 2], s, k, tol)
    mon.key('large', s1, s2, Lf, Lg)


WAYS = dict(copy=lambda m: m.copy(), copycopy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda m: pickle.loads(pickle.dumps(m)), view=lambda m: m.view(), slice=lambda m: m[...],
            negative=lambda m: -m, scaled=lambda m: m * 2.5, scaled2=lambda m: 2.5 * m, divided=lambda m: m / 2, sum=lambda m: m + m, conjugate=lambda m: m.conjugate(), npconj=np.conj, bar=lambda m: m.bar,
            eth=lambda m: m.eth, ethbar=lambda m: m.ethbar, Lz=lambda m: m.Lz(), Lplus=lambda m: m.Lplus(), Rsquared=lambda m: m.Rsquared(), again=sf.Modes, truncated=lambda m: m.truncate_ell(2),
            zeros_like=np.zeros_like, row=lambda m: m[0], product=lambda m: m * m, product2=lambda m: m.multiply(m), grid=lambda m: m.grid().modes(m.ell_max),
            passed=lambda m: sf.Modes(m, multiplication_truncator=None).grid().modes(m.ell_max, multiplication_truncator=TRS[0]))
TRS = [None]


def inherited(mon, rng, idx, tier):
    """a stored truncator stays with whatever is made from the object"""
    names = sorted(WAYS)
    name = names[idx % len(names)]
    t = [max, min][int(rng.integers(2))]; TRS[0] = t
    s = int(rng.integers(-1, 2)); L = int(rng.integers(2, 5)); Lg = int(rng.integers(1, 5))
    m, w, s, L = mg.modes(rng, s=s, L=L, shape=(2,), multiplication_truncator=t)
    g, wg, s2, Lg = mg.modes(rng, s=int(rng.integers(-1, 2)), L=Lg, shape=(), multiplication_truncator=t)
    x = WAYS[name](m)
    mon.ctx.update(made_by=name, truncator=t.__name__, s=s, ell_max=x.ell_max, ell_max_g=Lg)
    xw = np.array(x.ndarray)
    want = mg.pad(product_b(xw, x.s, x.ell_max, wg, s2, Lg), t((x.ell_max, Lg))).copy()
    want[..., :min((x.s + s2) ** 2, want.shape[-1])] = 0
    for r in (x * g, g * x, np.multiply(x, g), x.multiply(g), g.multiply(x)):
        mg.check_modes(mon, 'inherited truncator', r, want, x.s + s2, t((x.ell_max, Lg)), tolerance(xw, wg, x.ell_max, Lg))
    mon.key('inherited', name, t.__name__)


WORKLOADS = [W('inherited', inherited, 5 * len(WAYS), 60 * len(WAYS)), W('large', large, 64, 1600), W('product', product, 960, 24000), W('arrays', arrays, 240, 6000), W('scalars', scalars, 240, 4000)]
