"""Helpers for Modes and Grid objects."""
import numpy as np
import spherical_functions as sf
from . import ref, gens


def spin(rng, big=6):
    return int(rng.integers(-2, 3)) if rng.random() < .6 else int(rng.integers(-big, big + 1))


def weights(rng, shape, s, L):
    w = gens.cplx(rng, tuple(shape) + ((L + 1) ** 2,))
    w[..., :min(s * s, w.shape[-1])] = 0
    return w


def modes(rng, s=None, L=None, shape=None, maxL=8, maxdim=2, **kw):
    """(Modes object, its weights as a plain array, s, ell_max)"""
    if s is None: s = spin(rng)
    if L is None: L = int(rng.integers(0, maxL + 1)) if rng.random() < .3 else int(rng.integers(min(abs(s), maxL), maxL + 1))
    if shape is None: shape = gens.shape(rng, maxdim, 4)
    w = weights(rng, shape, s, L)
    return sf.Modes(w.copy(), spin_weight=s, **kw), w, s, L


def scale(*ws):
    """magnitude for tolerances: product of (largest norm over the last axis), at least tiny"""
    t = 1.0
    for w in ws:
        w = np.asarray(w)
        t *= float(np.max(np.linalg.norm(w, axis=-1))) if w.size else 1.0
    return t if t > 0 else 1e-300


def lscale(w, axes=1):
    """the same for each leading index separately, shaped to broadcast against a result with that many trailing axes"""
    w = np.asarray(w)
    n = np.linalg.norm(w, axis=-1)
    n = np.where(n > 0, n, 1e-300)
    return n.reshape(n.shape + (1,) * axes)


def test_rotors(rng, n=5):
    return np.array([gens.rotor(rng, 'random')[0] for _ in range(n - 1)] + [gens.rotor(rng)[0]])


def pad(w, L):
    """weights up to ell=L, padded with zeros or cut"""
    n = (L + 1) ** 2
    if w.shape[-1] >= n: return w[..., :n]
    return np.concatenate([w, np.zeros(w.shape[:-1] + (n - w.shape[-1],), complex)], -1)


def check_meta(mon, kind, m, s, L, shape=None):
    mon.ok(kind + ' type', type(m) is sf.Modes, got=type(m))
    mon.ok(kind + ' metadata', m.s == s and m.spin_weight == s and m.ell_max == L and m.ell_min == 0 and m.n_modes == (L + 1) ** 2
           and m.shape[-1] == (L + 1) ** 2, s=m.s, want_s=s, ell_max=m.ell_max, want_ell_max=L, shape_got=m.shape)
    if shape is not None: mon.eq(kind + ' metadata', tuple(m.shape), tuple(shape) + ((L + 1) ** 2,))


def check_modes(mon, kind, m, w, s, L, tol, shape=None):
    """m is a Modes object with spin s, ell_max L and weights w (exactly zero below |s|)"""
    check_meta(mon, kind, m, s, L, shape if shape is not None else w.shape[:-1])
    d = np.asarray(m.view(np.ndarray))
    mon.close(kind, d, pad(w, L), tol)
    mon.ok(kind + ' zero below |s|', not np.any(d[..., :s * s]))


def gridvals(rng, s, nt, nph, shape, kind=None):
    """Generic complex values on a grid, bounded away from zero (relative to their scale, which may be extreme)"""
    z = rng.normal(size=tuple(shape) + (nt, nph)) + 1j * rng.normal(size=tuple(shape) + (nt, nph))
    z = z + np.where(z.real >= 0, 0.25, -0.25)
    k = rng.integers(10)
    if k == 0: z = z * 10.0 ** rng.uniform(-40, 40)
    elif k == 1: z = z * 10.0 ** rng.uniform(-15, 15, tuple(shape) + (1, 1))
    elif k == 2: z = z.real + 0j
    return z


def grid_size(rng, s, extra=6):
    n = 2 * abs(s) + 1
    return n + int(rng.integers(0, extra)), n + int(rng.integers(0, extra))


def check_grid(mon, kind, g, v, s, tol, shape=None):
    mon.ok(kind + ' type', type(g) is sf.Grid, got=type(g))
    mon.ok(kind + ' metadata', g.s == s and g.spin_weight == s and (g.n_theta, g.n_phi) == v.shape[-2:], s=g.s, want_s=s, shape_got=g.shape)
    mon.close(kind, np.asarray(g.view(np.ndarray)), v, tol)
