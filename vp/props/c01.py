"""C01: D elements against the spectral reference, in element, rotor-array and matrix evaluation."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = ("case = one rotor (generic, at a pole, within 1e-18..1e-1 of a pole, |Ra|=|Rb| or nearly so, rotations about an axis, {0,+-1} "
        "components) x full index sets; distinct = (branch region of the rotor, 2*ell, evaluation form); every (mp,m) of each ell is compared")
ASSUMPTIONS = ["numpy's eigh/exp/atan2 are accurate to a few ulp", "tolerance tol(ell)=3e-14(ell+1)+2e-16*10^(0.29 ell), about 20x the roundoff measured on the unchanged code"]
REQUIRED = ['element', 'matrices', 'array']


def full(twoell):
    r = np.arange(-twoell, twoell + 1, 2)
    return np.array([[twoell, a, b] for a in r for b in r])


def elements(mon, rng, idx, tier):
    q, kind = gens.rotor(rng)
    twoell = int(idx % 65)
    mon.ctx.update(R=q.tolist(), kind=kind, twoell=twoell)
    want = ref.D_matrix(twoell, q).ravel()
    ind = full(twoell)
    mon.close('element', sf.Wigner_D_element(gens.q1(q), ind / 2), want, ref.tol_D(twoell))
    mon.key(gens.region(q), twoell, 'element'); mon.region('rotor ' + gens.region(q))
    out = np.full(len(ind), np.nan + 1j * np.nan)
    R = gens.q1(q)
    f = gens.work('_Wigner_D_element', 4)
    if f is not None:
        f(R.a, R.b, ind, out)
        mon.close('work function', out, want, ref.tol_D(twoell))
    mon.sample(R=q.tolist(), twoell=twoell, n=len(ind), first=out[0], ref=want[0])


def matrices(mon, rng, idx, tier):
    q, kind = gens.rotor(rng)
    a = int(rng.integers(0, 33)) if rng.random() < .7 else 0
    b = int(rng.integers(a, min(33, a + (9 if tier == 'quick' else 20))))
    if rng.random() < .15: b = 32
    if rng.random() < .1: a = b
    mon.ctx.update(R=q.tolist(), kind=kind, ell_min=a, ell_max=b)
    got = sf.Wigner_D_matrices(gens.q1(q), a, b)
    want = np.concatenate([ref.D_matrix(2 * l, q).ravel() for l in range(a, b + 1)])
    tol = np.concatenate([np.full((2 * l + 1) ** 2, ref.tol_D(2 * l)) for l in range(a, b + 1)])
    mon.close('matrices', got, want, tol)
    for l in range(a, b + 1): mon.key(gens.region(q), 2 * l, 'matrices')
    mon.region('rotor ' + gens.region(q))


def arrays(mon, rng, idx, tier):
    n = int(rng.integers(1, 40))
    twoell = int(rng.integers(0, 65))
    if idx % 100 == 7: n = int(rng.integers(200, 3000)); twoell = int(rng.integers(0, 9))       # long arrays
    Q = gens.rotors(rng, (n,))
    D = ref.D_matrix(twoell, Q)
    for _ in range(4):
        i, j = int(rng.integers(0, twoell + 1)), int(rng.integers(0, twoell + 1))
        if rng.random() < .3: i = int(rng.choice([0, twoell]))
        if rng.random() < .3: j = int(rng.choice([0, twoell]))
        mp, m = -twoell / 2 + i, -twoell / 2 + j
        ell = twoell / 2
        if twoell % 2 == 0: ell, mp, m = int(ell), int(mp), int(m)
        mon.ctx.update(ell=ell, mp=mp, m=m, Rs=Q)
        got = sf.Wigner_D_element(gens.q(Q), ell, mp, m)
        mon.close('array', got, D[:, i, j], ref.tol_D(twoell))
        for qq in Q: mon.key(gens.region(qq), twoell, 'array')
    for qq in Q: mon.region('rotor ' + gens.region(qq))


def arrays_small(mon, rng, idx, tier):
    """every (ell,mp,m) with 2 ell <= 12, over a batch of rotors from every branch region"""
    n = 12
    Q = np.array([gens.rotor(rng, k)[0] for k in gens.KINDS] + [gens.rotor(rng)[0]])
    triples = [(t, i, j) for t in range(0, 13) for i in range(t + 1) for j in range(t + 1)]
    twoell, i, j = triples[idx % len(triples)]
    ell, mp, m = twoell / 2, -twoell / 2 + i, -twoell / 2 + j
    mon.ctx.update(ell=ell, mp=mp, m=m, Rs=Q)
    got = sf.Wigner_D_element(gens.q(Q), ell, mp, m)
    mon.close('array', got, ref.D_matrix(twoell, Q)[:, i, j], ref.tol_D(twoell))
    for qq in Q: mon.key(gens.region(qq), twoell, 'array')


WORKLOADS = [W('elements', elements, 3900, 65000), W('matrices', matrices, 1600, 24000), W('arrays', arrays, 4000, 60000),
             W('arrays_small', arrays_small, 1638, 819 * 24)]
