"""C21: both H recursions reproduce Wigner's d functions."""
import functools
import numpy as np
import spherical_functions as sf
from spherical_functions.WignerD import WignerDRecursion as full_mod
from spherical_functions.recursions import wignerH as wedge_mod
from .. import ref, gens
from ..core import W

RULE = ("case = one calculator (kind, n_max) called on a sequence of cos(beta) arrays with and without workspace, every element compared with an independent d matrix; "
        "distinct = (kind, n_max, array shape, memory order, workspace kind, sin given)")
ASSUMPTIONS = ["n_max up to 24 (quick; one in thirty up to 40) or 64 (thorough)",
               "tolerance 4e-14 (n_max+1) plus the error of sin(beta)=sqrt(1-cos^2) near the poles when sin(beta) is not given",
               "beta in (-pi, pi]: sin(beta) < 0 only where it is given explicitly; arrays are float, non-empty"]
REQUIRED = ['full d', 'wedge d', 'shape', 'workspace', 'history', 'range refused', 'n_max refused', 'wedge index', 'input kept', 'mismatch refused', 'full symmetry']


@functools.lru_cache(maxsize=None)
def eps(n):
    k = np.arange(-n, n + 1)
    e = lambda k: np.where(k > 0, (-1.0) ** np.abs(k), 1.0)
    return e(k)[:, None] * e(-k)[None, :]


def H_ref(n_max, beta):
    """list of (..., 2n+1, 2n+1) arrays"""
    return [eps(n) * ref.d_matrix(2 * n, beta) for n in range(n_max + 1)]


def cosines(rng, shape):
    c = np.empty(shape)
    for i in np.ndindex(*shape):
        k = rng.integers(8)
        if k < 4: c[i] = rng.uniform(-1, 1)
        elif k == 4: c[i] = rng.choice([1.0, -1.0, 0.0, 0.5, -0.5])
        elif k == 5: c[i] = rng.choice([-1, 1]) * (1 - 10.0 ** rng.uniform(-16, -1))
        elif k == 6: c[i] = np.cos(rng.uniform(0, np.pi))
        else: c[i] = 10.0 ** rng.uniform(-300, -1) * rng.choice([-1, 1])
    return c


SHAPES = [(), (1,), (5,), (2, 3), (2, 1, 3), (9,), (3, 2), (4, 4)]
CALC = {}


def calculator(kind, n):
    """calculators are kept, so that results are also seen after earlier calls"""
    if (kind, n) not in CALC: CALC[kind, n] = (full_mod if kind == 'full' else wedge_mod).HCalculator(n)
    return CALC[kind, n]


def recursion(mon, rng, idx, tier):
    kind = ['full', 'wedge'][idx % 2]
    top = (40 if rng.random() < .03 else 14) if tier == 'quick' else (64 if rng.random() < .05 else 24)
    n = int(rng.integers(0, top + 1)) if rng.random() < .7 else int(rng.integers(0, 4))
    hc = calculator(kind, n) if rng.random() < .8 else (full_mod if kind == 'full' else wedge_mod).HCalculator(n)
    for rep in range(2):
        sh = SHAPES[int(rng.integers(len(SHAPES)))]
        if sh and n <= 6 and rng.random() < .05: sh = gens.lengthen(rng, sh)
        c = cosines(rng, sh)
        given = rng.random() < .5
        lay = ['C', 'F', 'strided', 'T'][int(rng.integers(4))]
        if lay == 'F' and sh: c = np.asfortranarray(c)
        elif lay == 'strided' and sh: b = np.full(sh[:-1] + (2 * sh[-1],), 9.0); b[..., ::2] = c; c = b[..., ::2]
        elif lay == 'T' and len(sh) > 1: c = np.ascontiguousarray(c.T).T
        beta = np.arctan2(np.sqrt((1 - c) * (1 + c)), c)
        s = None
        if given:
            s = np.array(np.sin(np.arccos(c))) if rng.random() < .5 else np.array(np.sqrt((1 - c) * (1 + c)))
            if rng.random() < .3: s = np.array(s * rng.choice([-1.0, 1.0], size=sh))         # angles in (-pi, 0) as well
            beta = np.arctan2(s, c)
        ws = ['none', 'fresh', 'dirty', 'nan', 'reused'][int(rng.integers(5))]
        mon.ctx.update(kind=kind, n_max=n, shape=sh, layout=lay, sin_given=given, workspace=ws, cos=np.array(c))
        keep = c.copy(), None if s is None else s.copy()
        arg = c
        if sh == () and rng.random() < .5 and ws == 'none': arg = float(c)
        kw = {}
        if s is not None: kw['sinβ'] = s
        if ws != 'none':
            w = hc.workspace(np.asarray(c))
            if ws == 'dirty': w[...] = rng.normal(size=w.shape) * 1e3
            elif ws == 'nan': w[...] = np.nan
            elif ws == 'reused': hc(cosines(rng, sh), None, w)
            kw['workspace'] = w
        H = hc(arg, **kw) if rng.random() < .5 else hc(arg, kw.get('sinβ'), kw.get('workspace'))
        mon.same('input kept', c, keep[0])
        if s is not None: mon.same('input kept', s, keep[1])
        size = sum((2 * k + 1) ** 2 for k in range(n + 1)) if kind == 'full' else sum((k + 1) ** 2 for k in range(n + 1))
        mon.eq('shape', tuple(H.shape), (size,) + sh)
        tol = 4e-14 * (n + 1) * np.ones(sh)
        if not given: tol = tol + n * np.minimum(2.3e-16 / np.maximum(np.sqrt((1 - c) * (1 + c)), 1e-300), 3e-8)
        R = H_ref(n, beta)
        i = 0
        name = kind + ' d'
        wants, idxs = [], []
        for k in range(n + 1):
            if kind == 'full':
                wants.append(np.moveaxis(R[k].reshape(sh + (-1,)), -1, 0))
            else:
                pick = [(mp + k, m + k) for mp in range(-k, k + 1) for m in range(abs(mp), k + 1)]
                a, b = np.array(pick).T
                wants.append(np.moveaxis(R[k][..., a, b], -1, 0))
        want = np.concatenate(wants, 0)
        mon.close(name, H, want, np.broadcast_to(tol, H.shape))
        if kind == 'full' and n:
            k = int(rng.integers(1, n + 1)); o = sum((2 * j + 1) ** 2 for j in range(k))
            M = np.asarray(H)[o:o + (2 * k + 1) ** 2].reshape((2 * k + 1, 2 * k + 1) + sh)
            mon.close('full symmetry', M, np.swapaxes(M, 0, 1), 1e-13); mon.close('full symmetry', M, M[::-1, ::-1], 1e-13)
        if ws != 'none': mon.ok('workspace', True); mon.key(kind, n, 'ws', ws)
        if rep: mon.ok('history', True)
        mon.key(kind, n, sh, lay, ws, given)
        mon.sample(kind=kind, n_max=n, shape=sh, workspace=ws)


def large(mon, rng, idx, tier):
    """high n_max: all n of one angle, each kind"""
    kind = ['full', 'wedge'][idx % 2]
    n = int(rng.integers(41, 81)) if idx % 8 else int(rng.integers(90, 129))
    c = cosines(rng, (2,))
    mon.ctx.update(kind=kind, n_max=n, cos=c)
    s = np.sqrt((1 - c) * (1 + c))
    H = np.asarray((full_mod if kind == 'full' else wedge_mod).HCalculator(n)(c, s))
    size = sum((2 * k + 1) ** 2 for k in range(n + 1)) if kind == 'full' else sum((k + 1) ** 2 for k in range(n + 1))
    mon.eq('shape', H.shape, (size, 2))
    beta = np.arctan2(s, c)
    ks = set(range(0, n + 1, 7)) | {n, n - 1, n - 2} | {int(x) for x in rng.integers(0, n + 1, 6)}
    o = 0
    for k in range(n + 1):
        z = (2 * k + 1) ** 2 if kind == 'full' else (k + 1) ** 2
        if k in ks:
            R = eps(k) * ref.d_matrix(2 * k, beta)
            if kind == 'full': want = R.reshape(2, -1).T
            else:
                a, b = np.array([(mp + k, m + k) for mp in range(-k, k + 1) for m in range(abs(mp), k + 1)]).T
                want = R[:, a, b].T
            mon.close(kind + ' d', H[o:o + z], want, 4e-14 * (n + 1), n=k)
        o += z
    mon.key(kind, 'large', n)


def refuse(mon, rng, idx, tier):
    n = int(rng.integers(0, 6))
    for mod in (full_mod, wedge_mod):
        hc = mod.HCalculator(n)
        for c in (1.0000001, -1.0000001, 2.0, np.array([0.1, 1.5]), np.array([[0.2, -3.0]]), np.nextafter(1, 2), float('inf')): mon.raises('range refused', ValueError, hc, c)
        mon.raises('n_max refused', ValueError, mod.HCalculator, -1 - int(rng.integers(5)))
        mon.raises('mismatch refused', ValueError, hc, np.array([.1, .2]), np.array([.1, .2, .3]))
    # documented access to the wedge
    ix = getattr(wedge_mod, 'wedge_index', None); wf = getattr(wedge_mod, 'wedgeify_index', None)
    k = int(rng.integers(0, 12)); c = rng.uniform(-1, 1)
    H = wedge_mod.HCalculator(k)(c)
    R = H_ref(k, np.array(np.arccos(c)))
    for _ in range(40):
        l = int(rng.integers(0, k + 1)); mp, m = (int(x) for x in rng.integers(-l, l + 1, 2))
        mon.close('wedge index', H[ix(*wf(l, mp, m))], R[l][mp + l, m + l], 1e-12, n=l, mp=mp, m=m, cos=c)
    mon.key('refuse', n, k)


def warmup(tier):
    for mod in (full_mod, wedge_mod): mod.HCalculator(3)(np.array([.1, .2])); mod.HCalculator(3)(.1)


WORKLOADS = [W('large', large, 48, 800), W('recursion', recursion, 1200, 20000), W('refuse', refuse, 40, 400)]
