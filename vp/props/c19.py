"""C19: modes, grids and point evaluation describe the same function."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one Modes object put on a grid of some size, evaluated at some rotors, and brought back from the grid; grid values and point values are compared "
        "with an independent evaluation of the harmonics; distinct = (s, ell_max, n_theta - min, n_phi - min, leading axes, rotor shape)")
ASSUMPTIONS = ["grid(): ell_max >= 1 (below |s| included) and n_theta, n_phi >= 2 max(ell_max, |s|) + 1 (documented as the minimum that captures the function)",
               "evaluate(): ell_max <= 32", "tolerance 1e-12 (1+ell_max)^2 relative to the norm of the weights"]
REQUIRED = ['grid values', 'grid metadata', 'default grid', 'evaluate', 'evaluate shape', 'round trip', 'round trip default', 'zeros above the band limit', 'truncation',
            'grid agrees with evaluate', 'inputs kept', 'grid large', 'directions of theta_phi', 'evaluate large', 'ell_max below the spin weight']


def directions(nt, nph):
    th = np.pi * np.arange(nt) / (nt - 1); ph = 2 * np.pi * np.arange(nph) / nph
    T, P = np.broadcast_arrays(th[:, None], ph[None, :])
    return ref.from_theta_phi(T, P)


def onegrid(mon, rng, s, L, sh, nt, nph, big=''):
    w = mg.weights(rng, sh, s, L)
    m = sf.Modes(w.copy(), spin_weight=s)
    tol = 1e-12 * (1 + L) ** 2 * mg.lscale(w)
    form = int(rng.integers(5))
    if nt == nph == 2 * L + 1 and form < 2: g = m.grid(); mon.ok('default grid', (g.n_theta, g.n_phi) == (nt, nph))
    elif nt == nph and form == 2: g = m.grid(nt); mon.ok('default grid', (g.n_theta, g.n_phi) == (nt, nph))
    elif nt == 2 * L + 1 and form == 4: g = m.grid(n_phi=nph); mon.ok('default grid', (g.n_theta, g.n_phi) == (nt, nph))
    elif form == 3: g = m.grid(n_theta=nt, n_phi=nph)
    else: g = m.grid(nt, nph)
    want = np.einsum('...k,tpk->...tp', w, ref.basis(directions(nt, nph), s, L))
    mg.check_grid(mon, 'grid' + big, g, want, s, tol[..., None])
    mon.close('grid values', g.ndarray, want, tol[..., None])
    tp = sf.theta_phi(nt, nph)
    mon.eq('directions of theta_phi', tp.shape, (nt, nph, 2))
    mon.close('directions of theta_phi', ref.from_theta_phi(tp[..., 0], tp[..., 1]), directions(nt, nph), 1e-14)
    mon.same('inputs kept', m.ndarray, w); mon.eq('inputs kept', (m.s, m.ell_max), (s, L))
    return m, w, g, want, tol


def back(mon, rng, s, L, w, g, nt, nph, tol, sh):
    keep = g.ndarray.copy()
    for k in {L, int(rng.integers(abs(s), max(L, abs(s)) + 1)), (min(nt, nph) - 1) // 2, int(rng.integers(0, abs(s) + 1))}:
        if 2 * k + 1 > min(nt, nph): continue
        r = g.modes(k) if rng.random() < .5 else g.modes(ell_max=k)
        kind = 'round trip' if k == L else 'truncation' if k < L else 'zeros above the band limit'
        mg.check_modes(mon, kind, r, mg.pad(w, k), s, k, tol)
    if nt == nph:
        r = g.modes(); k = (nt - 1) // 2
        mg.check_modes(mon, 'round trip default', r, mg.pad(w, k), s, k, tol)
        mon.close('zeros above the band limit', r.ndarray[..., (L + 1) ** 2:], np.zeros(r.ndarray[..., (L + 1) ** 2:].shape), tol)
        g2 = r.grid(nt, nph) if k >= 1 else g
        mg.check_grid(mon, 'round trip grid', g2, keep, s, 2 * tol[..., None])
    mon.same('inputs kept', g.ndarray, keep); mon.eq('inputs kept', g.s, s)


def trip(mon, rng, idx, tier):
    s = mg.spin(rng, 6)
    L = max(1, abs(s)) + int(rng.integers(0, 8))
    sh = gens.shape(rng, 3, 3, long=.015, top=150)
    nt, nph = 2 * L + 1, 2 * L + 1
    k = int(rng.integers(5))
    if k == 1: nt = nph = nt + int(rng.integers(1, 8))
    elif k == 2: nt += int(rng.integers(0, 8)); nph += int(rng.integers(0, 8))
    elif k == 3: nt += 1
    elif k == 4: nph += int(rng.integers(1, 4))
    if idx % 8 == 3:                                            # much finer than needed, every n_phi in turn
        L = max(1, abs(s)); sh = sh[:1]; nt = 2 * L + 1 + int(rng.integers(0, 12)); nph = max(2 * L + 1, idx // 8)
        if rng.random() < .3: nt, nph = nph, nt
    mon.ctx.update(s=s, ell_max=L, shape=sh, n_theta=nt, n_phi=nph)
    m, w, g, want, tol = onegrid(mon, rng, s, L, sh, nt, nph)
    back(mon, rng, s, L, w, g, nt, nph, tol, sh)
    # the grid and evaluate() agree through the real code
    D = directions(nt, nph)
    if rng.random() < .5:
        i, j = int(rng.integers(nt)), int(rng.integers(nph))
        mon.close('grid agrees with evaluate', m.evaluate(gens.q(D[i:i + 1, j:j + 1]))[..., 0, 0], g.ndarray[..., i, j], 2 * tol[..., 0])
    mon.key('trip', s, L, nt - 2 * L - 1, nph - 2 * L - 1, len(sh))
    mon.sample(s=s, ell_max=L, shape=sh, n_theta=nt, n_phi=nph)


def evaluate(mon, rng, idx, tier):
    m, w, s, L = mg.modes(rng, maxL=9, maxdim=2)
    sh = w.shape[:-1]
    rs = [(5,), (1,), (2, 3), (2, 1, 2), (7,), (3, 2)][int(rng.integers(6))]
    R = gens.rotors(rng, rs)
    mon.ctx.update(s=s, ell_max=L, shape=sh, rotor_shape=rs, rotors=R)
    A = gens.q(R)
    lay = ['C', 'F', 'transposed', 'strided', 'reversed'][idx % 5]
    if lay == 'F': A = np.asfortranarray(A)
    elif lay == 'transposed': A = np.ascontiguousarray(A.T).T
    elif lay == 'strided': B = np.empty(rs[:-1] + (2 * rs[-1],), A.dtype); B[..., ::2] = A; B[..., 1::2] = gens.q1([1, 0, 0, 0]); A = B[..., ::2]
    elif lay == 'reversed': A = A[::-1].copy()[::-1]
    mon.ctx.update(layout=lay)
    v = m.evaluate(A)
    mon.eq('evaluate shape', tuple(v.shape), sh + rs)
    tol = 1e-12 * (1 + L) ** 2 * mg.lscale(w, len(rs))
    want = ref.evaluate(w, s, L, R)
    mon.close('evaluate', v, want, tol)
    # a single rotor
    one = m.evaluate(gens.q1(R.reshape(-1, 4)[0]))
    mon.close('evaluate', np.asarray(one).reshape(sh), want.reshape(sh + (-1,))[..., 0], tol.reshape(sh))
    mon.same('inputs kept', m.ndarray, w)
    mon.key('evaluate', s, L, len(sh), rs, lay)
    for x in R.reshape(-1, 4): mon.region(gens.region(x))


def below(mon, rng, idx, tier):
    """ell_max below |s|: there is only the zero function, whatever the weights or the grid hold"""
    s = int(rng.integers(2, 9)) * (1 if rng.random() < .5 else -1)
    L = int(rng.integers(1, abs(s))); sh = gens.shape(rng, 2, 3)
    n = 2 * abs(s) + 1 + int(rng.integers(0, 9)); nph = n if rng.random() < .5 else 2 * abs(s) + 1 + int(rng.integers(0, 9))
    mon.ctx.update(s=s, ell_max=L, shape=sh, n_theta=n, n_phi=nph)
    m = sf.Modes(np.zeros(sh + ((L + 1) ** 2,), complex), spin_weight=s)
    g = m.grid(n, nph)
    mg.check_grid(mon, 'ell_max below the spin weight', g, np.zeros(sh + (n, nph), complex), s, 1e-300)
    R = gens.rotors(rng, (3,))
    mon.eq('ell_max below the spin weight', bool(np.any(m.evaluate(gens.q(R)))), False)
    v = mg.gridvals(rng, s, n, nph, sh)
    G = sf.Grid(v.copy(), spin_weight=s)
    for k in range(abs(s)): mg.check_modes(mon, 'ell_max below the spin weight', G.modes(k), np.zeros(sh + ((k + 1) ** 2,), complex), s, k, 1e-300)
    k = abs(s)
    a, b = G.modes(k).ndarray, G.modes(k + min(1, (min(n, nph) - 1) // 2 - k)).ndarray[..., :(k + 1) ** 2]
    mon.close('truncation', a, b, 1e-12 * (1 + k) ** 2 * np.max(np.abs(v)))
    mon.same('inputs kept', G.ndarray, v); mon.key('below', s, L, n, nph, len(sh))


def large(mon, rng, idx, tier):
    s = mg.spin(rng, 4)
    L = int(rng.integers(16, 25)) if tier == 'quick' else int(rng.integers(16, 33))
    nt = 2 * L + 1 + int(rng.integers(0, 3)); nph = nt if rng.random() < .5 else 2 * L + 1 + int(rng.integers(0, 3))
    mon.ctx.update(s=s, ell_max=L, n_theta=nt, n_phi=nph)
    m, w, g, want, tol = onegrid(mon, rng, s, L, (), nt, nph, ' large')
    back(mon, rng, s, L, w, g, nt, nph, tol, ())
    R = gens.rotors(rng, (6,))
    v = m.evaluate(gens.q(R))
    mon.close('evaluate large', v, ref.evaluate(w, s, L, R), (1e-12 * (1 + L) ** 2 + ref.tol_Y(L) * (1 + L)) * mg.scale(w), rotors=R)
    mon.key('large', s, L)


WORKLOADS = [W('trip', trip, 1000, 20000), W('evaluate', evaluate, 800, 16000), W('large', large, 48, 800), W('below', below, 200, 2000)]
