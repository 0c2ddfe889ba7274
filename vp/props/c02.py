"""C02: representation identities, monitored on the code's own matrices (no reference values involved)."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = ("case = pair of rotors (independent, nearly inverse, equal, product at or next to a pole) x ell; distinct = (2 ell, branch regions of R1, R2 and R1R2)")
ASSUMPTIONS = ["tolerance: (2 ell+1) times the element roundoff allowance for products, else the element allowance"]
REQUIRED = ['D(R1R2)=D(R1)D(R2)', 'unitary', 'D(R^-1)=D(R)^dagger', 'D(-R)', 'identity', 'conjugate symmetry', 'matrices: D(R1R2)=D(R1)D(R2)']


def mat(twoell, q):
    r = np.arange(-twoell, twoell + 1, 2)
    ind = np.array([[twoell, a, b] for a in r for b in r]) / 2
    n = twoell + 1
    return np.asarray(sf.Wigner_D_element(gens.q1(q), ind)).reshape(n, n)


def pair(rng):
    q1, k1 = gens.rotor(rng)
    k = rng.integers(5)
    if k == 0:      # product next to (or at) the identity / a given rotor
        target, _ = gens.rotor(rng, 'near_b0' if rng.random() < .5 else 'near_a0')
        q2 = ref.qmul(ref.qconj(q1), target)
        n = np.linalg.norm(q2); q2 = q2 / n
    elif k == 1:
        q2 = q1.copy() if rng.random() < .5 else ref.qconj(q1)
    else:
        q2, _ = gens.rotor(rng)
    q12 = ref.qmul(q1, q2)
    return q1, q2, q12


def checks(mon, twoell, q1, q2, q12, m1, m2, m12, getm, tag=''):
    n = twoell + 1
    t = ref.tol_D(twoell)
    tp = 2 * n * t
    mon.close(tag + 'D(R1R2)=D(R1)D(R2)', m12, m1 @ m2, tp)
    mon.close(tag + 'unitary', m1 @ m1.conj().T, np.eye(n), tp)
    mon.close(tag + 'D(R^-1)=D(R)^dagger', getm(ref.qconj(q1)), m1.conj().T, 2 * t)
    mon.close(tag + 'D(-R)', getm(-q1), (-1) ** twoell * m1, 2 * t)
    sgn = (-1.0) ** (np.arange(n)[:, None] - np.arange(n)[None, :])
    mon.close(tag + 'conjugate symmetry', m1[::-1, ::-1], sgn * m1.conj(), 2 * t)
    mon.key(twoell, gens.region(q1), gens.region(q2), gens.region(q12))
    mon.region('product ' + gens.region(q12))


def elements(mon, rng, idx, tier):
    twoell = int(idx % 65) if rng.random() < .5 else int(rng.integers(0, 25))
    q1, q2, q12 = pair(rng)
    mon.ctx.update(R1=q1.tolist(), R2=q2.tolist(), twoell=twoell)
    g = lambda q: mat(twoell, q)
    checks(mon, twoell, q1, q2, q12, g(q1), g(q2), g(q12), g)
    for one in (np.array([1., 0, 0, 0]), np.array([-1., 0, 0, 0])):
        mon.close('identity', g(one), np.eye(twoell + 1) * (one[0] ** twoell), 1e-13)
    mon.sample(R1=q1.tolist(), R2=q2.tolist(), twoell=twoell)


def matrices(mon, rng, idx, tier):
    q1, q2, q12 = pair(rng)
    a = int(rng.integers(0, 33)); b = min(32, a + int(rng.integers(0, 4)))
    mon.ctx.update(R1=q1.tolist(), R2=q2.tolist(), ell_min=a, ell_max=b)
    def all_(q):
        v = np.asarray(sf.Wigner_D_matrices(gens.q1(q), a, b)); out = {}; i = 0
        for l in range(a, b + 1):
            n = 2 * l + 1; out[l] = v[i:i + n * n].reshape(n, n); i += n * n
        mon.eq('matrices: size', len(v), i)
        return out
    M1, M2, M12, Mi, Mm = all_(q1), all_(q2), all_(q12), all_(ref.qconj(q1)), all_(-q1)
    for l in range(a, b + 1):
        sel = {id(q1): M1}
        def g(q, l=l):
            return Mm[l] if np.array_equal(q, -q1) else Mi[l]
        # order of the two calls inside checks: inverse, then negative
        n = 2 * l + 1; t = ref.tol_D(2 * l); tp = 2 * n * t
        mon.close('matrices: D(R1R2)=D(R1)D(R2)', M12[l], M1[l] @ M2[l], tp)
        mon.close('matrices: unitary', M1[l] @ M1[l].conj().T, np.eye(n), tp)
        mon.close('matrices: inverse', Mi[l], M1[l].conj().T, 2 * t)
        mon.close('matrices: D(-R)', Mm[l], M1[l], 2 * t)
        mon.key('m', l, gens.region(q1), gens.region(q2), gens.region(q12))


WORKLOADS = [W('elements', elements, 3250, 39000), W('matrices', matrices, 1000, 15000)]
