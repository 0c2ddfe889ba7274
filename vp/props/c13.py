"""C13: linear operations, conjugation, real/imaginary parts and norm of Modes act on the function."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one operation on one or two Modes objects, compared mode by mode with the operation's definition and, at random rotors, with the operation "
        "on the independently evaluated values; distinct = (operation, s, ell_max's, broadcasting)")
ASSUMPTIONS = ["ell_max up to 10", "tolerance 1e-14 relative per mode, 1e-12 (1+ell_max)^2 relative at rotors (roundoff of summing (1+ell_max)^2 terms)"]
REQUIRED = ['add', 'subtract', 'negative', 'positive', 'divide', 'scale', 'conjugate', 'real', 'imag', 'norm', 'value of sum', 'value of conjugate',
            'value of real', 'value of imag', 'norm by quadrature', 'inputs kept', 'add zero', 'real/imag refused', 'conjugate in place']


def bshape(rng):
    """two broadcastable leading shapes"""
    full = gens.shape(rng, 3, 3)
    a = tuple(n if rng.random() < .75 else 1 for n in full)[int(rng.integers(0, len(full) + 1)) if rng.random() < .4 else 0:]
    b = tuple(n if rng.random() < .75 else 1 for n in full)[int(rng.integers(0, len(full) + 1)) if rng.random() < .4 else 0:]
    return a, b


def conj_modes(w, s, L):
    lm = ref.LMarr(L)
    idx = lm[:, 0] ** 2 + lm[:, 0] - lm[:, 1]
    return np.where((s + lm[:, 1]) % 2 == 0, 1.0, -1.0) * np.conj(w[..., idx])


def val(w, s, L, R):
    return ref.evaluate(w, s, L, R)


def vt(L, *ws):
    return 1e-12 * (1 + L) ** 2 * sum(mg.lscale(w) for w in ws)


def addsub(mon, rng, idx, tier):
    s = mg.spin(rng, 6)
    a, b = bshape(rng)
    m1, w1, s, L1 = mg.modes(rng, s=s, shape=a, maxL=10)
    m2, w2, s, L2 = mg.modes(rng, s=s, shape=b, maxL=10, L=L1 if rng.random() < .3 else None)
    if idx % 25 == 3:                     # high ell
        a, b = a[-1:], b[-1:]
        m1, w1, s, L1 = mg.modes(rng, s=s, shape=a, L=int(rng.integers(10, 41))); m2, w2, s, L2 = mg.modes(rng, s=s, shape=b, L=int(rng.integers(0, 41)))
    L = max(L1, L2)
    mon.ctx.update(s=s, ell_max1=L1, ell_max2=L2, shape1=a, shape2=b)
    p1, p2 = mg.pad(w1, L), mg.pad(w2, L)
    R = mg.test_rotors(rng, 3)
    for name, got, want, sign in [('add', m1 + m2, p1 + p2, 1), ('add', np.add(m1, m2), p1 + p2, 1), ('add', m1.add(m2), p1 + p2, 1),
                                  ('subtract', m1 - m2, p1 - p2, -1), ('subtract', np.subtract(m1, m2), p1 - p2, -1), ('subtract', m1.subtract(m2), p1 - p2, -1)]:
        mg.check_modes(mon, name, got, want, s, L, 1e-14 * (np.abs(p1) + np.abs(p2)) + 1e-300)
        mon.close('value of sum', val(got, s, L, R), val(w1, s, L1, R) + sign * val(w2, s, L2, R), vt(L, w1, w2))
    mon.same('inputs kept', m1.ndarray, w1); mon.same('inputs kept', m2.ndarray, w2)
    mon.eq('inputs kept', (m1.s, m1.ell_max, m2.s, m2.ell_max), (s, L1, s, L2))
    for z in (0, 0.0, 0j, np.zeros(a)):
        for got, want in ((m1 + z, w1), (m1 - z, w1), (z + m1, w1), (m1.add(z), w1), (m1.subtract(z), w1), (np.subtract(z, m1), -w1)):
            mg.check_modes(mon, 'add zero', got, want, s, L1, 1e-300)
    mon.key('addsub', s, L1, L2, a == b, len(a), len(b))
    mon.sample(s=s, ell_max1=L1, ell_max2=L2, shapes=(a, b))


def unary(mon, rng, idx, tier):
    m, w, s, L = mg.modes(rng, maxL=10, maxdim=3, s=0 if rng.random() < .35 else None)
    if idx % 25 == 3: m, w, s, L = mg.modes(rng, s=0 if rng.random() < .35 else None, shape=gens.shape(rng, 1, 2), L=int(rng.integers(10, 41)))      # high ell
    sh = w.shape[:-1]
    mon.ctx.update(s=s, ell_max=L, shape=sh)
    R = mg.test_rotors(rng, 3)
    t = 1e-14 * (np.abs(w) + 1e-286)
    for r in (-m, np.negative(m)): mg.check_modes(mon, 'negative', r, -w, s, L, t)
    for r in (+m, np.positive(m)): mg.check_modes(mon, 'positive', r, w, s, L, t)
    for c in (2, -0.5, 1j, 3 - 4j, np.float64(7), 1e100):
        want = w / c
        for r in (m / c, np.divide(m, c), np.true_divide(m, c), m.divide(c)): mg.check_modes(mon, 'divide', r, want, s, L, 1e-14 * (np.abs(want) + 1e-286))
        want = w * c
        for r in (m * c, c * m): mg.check_modes(mon, 'scale', r, want, s, L, 1e-14 * (np.abs(want) + 1e-286))
    ash = tuple(n if rng.random() < .7 else 1 for n in sh)[int(rng.integers(0, len(sh) + 1)):]
    a = rng.normal(size=ash) + 1j * rng.normal(size=ash) + 3
    want = w / np.asarray(a)[..., None]
    for r in (m / a, np.divide(m, a), m.divide(a)): mg.check_modes(mon, 'divide', r, want, s, L, 1e-14 * (np.abs(want) + 1e-286))
    # conjugation
    cw = conj_modes(w, s, L)
    v = val(w, s, L, R)
    for r in (m.conjugate(), m.conj(), m.bar, np.conjugate(m), np.conj(m), m.conjugate(False), m.conjugate(inplace=False)):
        mg.check_modes(mon, 'conjugate', r, cw, -s, L, 1e-15 * (np.abs(cw) + 1e-285))
        mon.close('value of conjugate', val(r, -s, L, R), v.conj(), vt(L, w))
    mon.same('inputs kept', m.ndarray, w); mon.eq('inputs kept', (m.s, m.ell_max), (s, L))
    c = m.copy(); r = c.conjugate(inplace=True)
    for x in (c, r): mg.check_modes(mon, 'conjugate in place', x, cw, -s, L, 1e-15 * (np.abs(cw) + 1e-285))
    r.conjugate(True); mg.check_modes(mon, 'conjugate in place', c, w, s, L, 1e-15 * (np.abs(w) + 1e-285))
    # parts
    if s == 0:
        for name, got, want in (('real', m.real, v.real), ('imag', m.imag, v.imag)):
            ww = (w + cw) / 2 if name == 'real' else (w - cw) / 2j
            mg.check_modes(mon, name, got, ww, 0, L, 1e-14 * (np.abs(w) + np.abs(cw) + 1e-286))
            mon.close('value of ' + name, val(got, 0, L, R), want.astype(complex), vt(L, w))
        for name, f in (('real', '_real_func'), ('imag', '_imag_func')):
            f = getattr(m.copy(), f, None)
            if f is not None:
                ww = (w + cw) / 2 if name == 'real' else (w - cw) / 2j
                mg.check_modes(mon, name, f(True), ww, 0, L, 1e-14 * (np.abs(w) + np.abs(cw) + 1e-286))
    else:
        for n in ('real', 'imag'): mon.raises('real/imag refused', ValueError, lambda: getattr(m, n))
    mon.same('inputs kept', m.ndarray, w); mon.eq('inputs kept', (m.s, m.ell_max), (s, L))
    # norm
    nn = m.norm()
    mon.close('norm', nn, np.sqrt(np.sum(np.abs(w) ** 2, -1)), 1e-13 * mg.lscale(w, 0))
    mon.eq('norm', np.shape(nn), sh)
    n = 2 * L + 1
    if L > 12: return mon.key('unary', s, L, len(sh))
    x, wt = np.polynomial.legendre.leggauss(L + 1)
    G = ref.from_theta_phi(np.arccos(x)[:, None], (2 * np.pi * np.arange(n) / n)[None, :])
    f2 = np.abs(ref.evaluate(w, s, L, G)) ** 2
    mon.close('norm by quadrature', np.asarray(nn) ** 2, np.einsum('...tp,t->...', f2, wt) * 2 * np.pi / n, 1e-11 * (mg.lscale(w, 0) ** 2 + 1e-290))
    mon.key('unary', s, L, len(sh))
    mon.region('|s|>ell_max' if abs(s) > L else 's=%d' % s)


WORKLOADS = [W('addsub', addsub, 1200, 20000), W('unary', unary, 800, 14000)]
