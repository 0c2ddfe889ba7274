"""C27: leading axes are independent: rearranging them commutes with every operation."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one Modes or Grid object with some leading shape and one rearrangement of its leading axes (index, slice, reversed or strided slice, list of indices, mask, reshape, exchange of axes, "
        "new axis, repeat, roll, ...); the rearranged object must be the same kind of object with the rearranged numbers, and every operation applied to it must give the rearranged result of the "
        "operation applied to the original; distinct = (rearrangement, operation, rank)")
ASSUMPTIONS = ["agreement to 1e-13 relative to the largest weight or value (sums may be formed in another order)", "products of Modes are exercised with one leading axis, in every memory layout"]
OPS_M = dict(negative=lambda m: -m, positive=lambda m: +m, scale=lambda m: m * (2.5 - 1j), rscale=lambda m: 3 * m, divide=lambda m: m / 1.5j, conjugate=lambda m: m.conjugate(), npconj=np.conjugate,
             norm=lambda m: m.norm(), Lsquared=lambda m: m.Lsquared(), Lz=lambda m: m.Lz(), Lplus=lambda m: m.Lplus(), Lminus=lambda m: m.Lminus(), Rsquared=lambda m: m.Rsquared(), Rz=lambda m: m.Rz(),
             Rplus=lambda m: m.Rplus(), Rminus=lambda m: m.Rminus(), eth=lambda m: m.eth, ethbar=lambda m: m.ethbar, grid=lambda m: m.grid(), absolute=np.abs, double=lambda m: m + m, zero=lambda m: m - m,
             copy=lambda m: m.copy(), again=sf.Modes, finite=np.isfinite, truncate=lambda m: m.truncate_ell(max(m.ell_max - 1, 0)))
OPS_M0 = dict(real=lambda m: m.real, imag=lambda m: m.imag)
OPS_G = dict(negative=lambda g: -g, positive=lambda g: +g, scale=lambda g: g * (2.5 - 1j), rscale=lambda g: 3 * g, divide=lambda g: g / 1.5j, rdivide=lambda g: 2j / g, conjugate=lambda g: g.conjugate(),
             npconj=np.conjugate, absolute=np.abs, absmethod=lambda g: g.absolute(), square=np.square, reciprocal=np.reciprocal, power=lambda g: g ** 2, double=lambda g: g + g, zero=lambda g: g - g,
             product=lambda g: g * g, quotient=lambda g: g / g, copy=lambda g: g.copy(), again=sf.Grid, finite=np.isfinite, modes=lambda g: g.modes((min(g.n_theta, g.n_phi) - 1) // 2))
OPS_G0 = dict(real=lambda g: g.real, imag=lambda g: g.imag, sqrt=np.sqrt, shift=lambda g: g + 2.0)
REQUIRED = ['rearranged', 'commutes', 'spin weight', 'original kept', 'product commutes', 'evaluate commutes', 'independent']
LEADS = [(3,), (2, 3), (4, 2, 2), (1, 3), (5,), (2, 1, 2), (3, 3), (6,)]


def rearrangement(rng, lead, rank1=False):
    """(name, function of an array whose leading axes have shape `lead`), never touching the trailing axes"""
    k = len(lead)
    i = lambda n: int(rng.integers(n))
    tail = lambda x: x.shape[k:]
    ax = i(k); n = lead[ax]
    pre = (slice(None),) * ax
    lst = [i(n) for _ in range(1 + i(2 * n))]
    mask = rng.random(n) < .6; mask[i(n)] = True
    a = i(n); step = [1, 2, -1, -2][i(4)]
    R = dict(slice=lambda x: x[pre + (slice(None, None, step),)], head=lambda x: x[pre + (slice(0, a + 1),)], last=lambda x: x[pre + (slice(a, None),)], list=lambda x: x[pre + (lst,)], mask=lambda x: x[pre + (mask,)],
             flip=lambda x: np.flip(x, ax), roll=lambda x: np.roll(x, a + 1, ax), repeat=lambda x: np.repeat(x, 2, axis=ax), take=lambda x: np.take(x, lst, axis=ax))
    if not rank1:
        R.update(index=lambda x: x[pre + (a,)], newaxis=lambda x: x[np.newaxis], newaxis2=lambda x: x[pre + (np.newaxis,)], flat=lambda x: x.reshape((-1,) + tail(x)), npflat=lambda x: np.reshape(x, (-1,) + tail(x)),
                 expand=lambda x: np.expand_dims(x, ax), squeeze=lambda x: x[np.newaxis].squeeze(0), tile=lambda x: np.tile(x, (2,) + (1,) * x.ndim), fold=lambda x: x.reshape((1, -1) + tail(x)))
        if k > 1:
            b = (ax + 1) % k; p = [int(q) for q in rng.permutation(k)]
            R.update(swap=lambda x: np.swapaxes(x, ax, b), swapm=lambda x: x.swapaxes(ax, b), move=lambda x: np.moveaxis(x, ax, b), transpose=lambda x: x.transpose(p + list(range(k, x.ndim))))
            if lead[0] > 1 and lead[-1] > 1: R.update(grid=lambda x: x[np.ix_(lst0, lst1)])
            lst0 = [i(lead[0]) for _ in range(2)]; lst1 = [i(lead[1]) for _ in range(3)]
    names = sorted(R); nm = names[i(len(names))]
    return nm, R[nm]


def layout(rng, w):
    """the same numbers in another memory layout"""
    k = int(rng.integers(4))
    if k == 0: return np.asfortranarray(w)
    if k == 1: return np.ascontiguousarray(w.swapaxes(0, -2 if w.ndim > 2 else 0)).swapaxes(0, -2 if w.ndim > 2 else 0)
    if k == 2: return np.ascontiguousarray(w[::-1])[::-1]
    b = np.zeros(w.shape[:-1] + (2 * w.shape[-1],), complex); b[..., ::2] = w
    return b[..., ::2]


def plain(x): return np.asarray(x.view(np.ndarray) if isinstance(x, np.ndarray) else x)


def describe(x): return (type(x).__name__, x.s, getattr(x, 'ell_max', None)) if isinstance(x, (sf.Modes, sf.Grid)) else ('plain', None, None)


def case(mon, rng, idx, tier):
    kind = 'MG'[idx % 2]; lead = LEADS[idx // 2 % 8]
    if rng.random() < .02: lead = gens.lengthen(rng, lead)
    s = int(rng.integers(-3, 4)) if rng.random() < .7 else 0
    if kind == 'M':
        L = int(rng.integers(max(abs(s), 1), 6)); w = mg.weights(rng, lead, s, L); o = sf.Modes(w.copy(), spin_weight=s); ops = dict(OPS_M, **(OPS_M0 if s == 0 else {}))
    else:
        n = mg.grid_size(rng, max(1, 2 * abs(s)), 3); w = mg.gridvals(rng, s, *n, lead); o = sf.Grid(w.copy(), spin_weight=s); ops = dict(OPS_G, **(OPS_G0 if s == 0 else {}))
    if rng.random() < .2: o = type(o)(layout(rng, w), spin_weight=s)
    nm, f = rearrangement(rng, lead)
    mon.ctx.update(kind=kind, s=s, shape=w.shape, rearrangement=nm)
    r = f(o); fw = f(w)
    mon.eq('rearranged', describe(r), describe(o)); mon.same('rearranged', plain(r), fw)
    names = sorted(ops)
    for k in rng.permutation(len(names))[:8]:
        op = names[int(k)]; mon.ctx.update(operation=op)
        with np.errstate(all='ignore'):
            A, B = ops[op](o), ops[op](r)
        mon.eq('spin weight', describe(A), describe(B))
        a, b = f(np.array(plain(A))), plain(B)
        if a.dtype == bool: mon.same('commutes', b, a)
        else: mon.close('commutes', b, a, 1e-13 * (np.abs(a).max() + 1e-290) * (1 + (30 if op in ('grid', 'modes') else 0)))
        mon.key(kind, nm, op, len(lead)); mon.region('%s rank %d' % (nm, len(lead)))
    if kind == 'M' and rng.random() < .4:
        R = gens.rotors(rng, [(3,), (2, 2), (1,)][int(rng.integers(3))]); mon.ctx.update(operation='evaluate')
        A, B = o.evaluate(gens.q(R)), r.evaluate(gens.q(R))
        mon.close('evaluate commutes', plain(B), f(np.array(plain(A))), 1e-13 * (np.abs(plain(A)).max() + 1e-290) * (1 + o.ell_max))
    mon.same('original kept', plain(o), w); mon.eq('original kept', describe(o), ('Modes' if kind == 'M' else 'Grid', s, getattr(o, 'ell_max', None)))
    c = r.copy(); mon.ctx.update(operation='copy, then in place')
    c.conjugate(inplace=True); c *= 2.0
    for x, v in ((o, w), (r, fw)): mon.same('independent', plain(x), v); mon.eq('independent', x.s, s)
    mon.sample(kind=kind, spin=s, shape=w.shape, rearrangement=nm)


def product(mon, rng, idx, tier):
    n = int(rng.integers(2, 7))
    if rng.random() < .04: n = int(rng.integers(20, 200))
    f, wf, s1, Lf = mg.modes(rng, s=int(rng.integers(-2, 3)), L=int(rng.integers(1, 5)), shape=(n,)); g, wg, s2, Lg = mg.modes(rng, s=int(rng.integers(-2, 3)), L=int(rng.integers(1, 5)), shape=(n,))
    nm, t = rearrangement(rng, (n,), rank1=True)
    mon.ctx.update(rearrangement=nm, s_f=s1, s_g=s2, ell_max_f=Lf, ell_max_g=Lg, n=n)
    A = f * g
    tol = 1e-13 * mg.scale(wf) * mg.scale(wg) * (1 + min(Lf, Lg)) + 1e-290
    for B in (t(f) * t(g), t(f).multiply(t(g))):
        mon.eq('spin weight', describe(B), describe(A))
        mon.close('product commutes', plain(B), t(np.array(plain(A))), tol)
    i = int(rng.integers(n))
    one = f[i:i + 1] * g                       # one function with all of the others
    mon.close('product commutes', plain(one)[i], plain(A)[i], tol)
    mon.same('original kept', plain(f), wf); mon.same('original kept', plain(g), wg)
    mon.key('product', nm)


def warmup(tier):
    m = sf.Modes(np.ones((4, 4), complex), spin_weight=0)
    for a, b in ((m, m), (m[::-1], m[::-1]), (m[:1], m), (m[[0, 1]], m[[0, 1]])): a * b
    m.evaluate(gens.q(np.array([[1., 0, 0, 0]])))


WORKLOADS = [W('axes', case, 2400, 40000), W('product', product, 400, 6000)]
