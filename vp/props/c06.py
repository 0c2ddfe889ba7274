"""C06: transformation laws, orthonormality and the addition theorem, on the code's own values."""
import math
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = ("case = rotor pair x spin weight x ell (all m), or a quadrature over the sphere for one s and ell_max; distinct = (law, branch region, s, ell)")
ASSUMPTIONS = ["orthonormality is summed on a Gauss-Legendre x uniform grid, exact for the band limits used"]
REQUIRED = ['spin phase', 'rotation mixes m', 'conjugation', 'negated rotor', 'addition theorem', 'orthonormal', 'spin phase (array)', 'conjugation (array)']


def Y(q, s, l):
    return np.asarray(sf.SWSH(gens.q1(q), s, np.array([[l, m] for m in range(-l, l + 1)])))


def spin(rng):
    return int(rng.integers(-3, 4)) if rng.random() < .6 else int(rng.integers(-32, 33))


def laws(mon, rng, idx, tier):
    q, _ = gens.rotor(rng); s = spin(rng)
    l = int(rng.integers(abs(s), min(32, abs(s) + 10) + 1))
    if rng.random() < .15: l = int(rng.integers(abs(s), 33))
    mon.ctx.update(R=q.tolist(), s=s, ell=l)
    t = ref.tol_Y(l); n = 2 * l + 1
    y = Y(q, s, l)
    ga = rng.uniform(-7, 7) if rng.random() < .7 else rng.integers(-8, 9) * np.pi / 2
    qg = ref.qmul(q, [math.cos(ga / 2), 0, 0, math.sin(ga / 2)])
    mon.close('spin phase', Y(qg, s, l), y * np.exp(-1j * s * ga), 2 * t + 1e-14 * (1 + abs(s)), gamma=ga)
    r1, _ = gens.rotor(rng)
    D = np.asarray(sf.Wigner_D_element(gens.q1(r1), [l])).reshape(n, n)
    mon.close('rotation mixes m', Y(ref.qmul(r1, q), s, l), D @ y, 2 * n * t, R1=r1.tolist())
    sg = np.array([(-1.0) ** (s + m) for m in range(-l, l + 1)])
    mon.close('conjugation', y.conj(), sg * Y(q, -s, l)[::-1], 2 * t)
    mon.close('negated rotor', Y(-q, s, l), y, 2 * t)
    mon.close('addition theorem', np.sum(np.abs(y) ** 2), n / (4 * np.pi), 4 * n * t)
    for k in ('phase', 'mix', 'conj', 'neg', 'add'): mon.key(k, gens.region(q), s, l)
    mon.sample(R=q.tolist(), s=s, ell=l)


def array_laws(mon, rng, idx, tier):
    """the same laws through the rotor-array form"""
    Q = gens.rotors(rng, (12,)); s = spin(rng); l = int(rng.integers(abs(s), min(32, abs(s) + 8) + 1))
    if rng.random() < .15: l = int(rng.integers(abs(s), 33))
    m = int(rng.integers(-l, l + 1)); ga = rng.uniform(-7, 7)
    t = ref.tol_Y(l)
    mon.ctx.update(Rs=Q, s=s, ell=l, m=m, gamma=ga)
    y = sf.SWSH(gens.q(Q), s, (l, m))
    Qg = ref.qmul(Q, [math.cos(ga / 2), 0, 0, math.sin(ga / 2)])
    mon.close('spin phase (array)', sf.SWSH(gens.q(Qg), s, (l, m)), y * np.exp(-1j * s * ga), 2 * t + 1e-14 * (1 + abs(s)))
    mon.close('conjugation (array)', np.conj(y), (-1.0) ** (s + m) * sf.SWSH(gens.q(Q), -s, (l, -m)), 2 * t)
    mon.close('negated rotor (array)', sf.SWSH(gens.q(-Q), s, (l, m)), y, 2 * t)
    mon.key('array', s, l, m)


def ortho(mon, rng, idx, tier):
    Lmax = 12 if tier == 'quick' else 22
    s = int(rng.integers(-Lmax, Lmax + 1)) if idx % 2 else int(rng.integers(-3, 4))
    L = int(rng.integers(abs(s), Lmax + 1))
    x, wt = np.polynomial.legendre.leggauss(L + 1)
    n = 2 * L + 1
    R = ref.from_theta_phi(np.arccos(x)[:, None], (2 * np.pi * np.arange(n) / n)[None, :])
    mon.ctx.update(s=s, ell_max=L)
    if rng.random() < .5:   # any frame on the sphere will do
        r1, _ = gens.rotor(rng, 'random'); R = ref.qmul(r1, R)
    B = sf.SWSH_grid(gens.q(R), s, L)
    G = np.einsum('tpa,tpb,t->ab', B.conj(), B, wt) * (2 * np.pi / n)
    E = np.diag((ref.LMarr(L)[:, 0] >= abs(s)).astype(float))
    mon.close('orthonormal', G, E, 1e-12 * (L + 1) + 20 * ref.tol_Y(L))
    mon.key('ortho', s, L)


WORKLOADS = [W('laws', laws, 2500, 50000), W('array_laws', array_laws, 1500, 30000), W('ortho', ortho, 80, 800)]
