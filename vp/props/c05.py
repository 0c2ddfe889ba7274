"""C05: SWSH values against the definition, in all forms."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = ("case = rotor(s) x spin weight x index list/pair/grid; distinct = (form, branch region of the rotor, s, ell band)")
ASSUMPTIONS = ["tolerance = element roundoff allowance of C01 times sqrt((2 ell+1)/4pi)"]
REQUIRED = ['index array', 'rotor array', 'grid', 'zero below |s|']


def spin(rng):
    return int(rng.integers(-4, 5)) if rng.random() < .6 else int(rng.integers(-32, 33))


def fullset(s, L, q):
    return ref.basis(q, s, L), np.concatenate([np.full(2 * l + 1, ref.tol_Y(l)) for l in range(L + 1)])


def one_rotor(mon, rng, idx, tier):
    q, kind = gens.rotor(rng); R = gens.q1(q); s = spin(rng)
    L = int(rng.integers(0, 13)) if rng.random() < .7 else int(rng.integers(13, 33))
    want, tol = fullset(s, L, q)
    ind = ref.LMarr(L)
    mon.ctx.update(R=q.tolist(), s=s, ell_max=L)
    tol = np.where(ind[:, 0] < abs(s), 1e-300, tol)
    perm = rng.permutation(len(ind)) if rng.random() < .6 else np.arange(len(ind))
    if rng.random() < .2: perm = perm[rng.integers(0, len(perm), len(perm))]
    arg = ind[perm]
    if rng.random() < .2: arg = arg.tolist()
    got = sf.SWSH(R, s, arg)
    mon.close('index array', got, want[perm], tol[perm])
    if abs(s) > 0: mon.ok('zero below |s|', not np.any(np.asarray(got)[ind[perm][:, 0] < abs(s)]))
    out = np.full(len(ind), np.nan + 0j)
    f = gens.work('_SWSH', 5)
    if f is not None:
        f(R.a, R.b, s, ind, out)
        mon.close('work function', out, want, tol)
    k = int(rng.integers(len(ind)))
    mon.close('index array', sf.SWSH(R, s, ind[k:k + 1]), want[k:k + 1], tol[k:k + 1], index=ind[k])
    mon.key('one', gens.region(q), s, L // 4); mon.region('rotor ' + gens.region(q))
    mon.sample(R=q.tolist(), s=s, L=L)


def rotor_array(mon, rng, idx, tier):
    sh = gens.shape(rng, 3, 4) or (int(rng.integers(1, 30)),)
    long = idx % 80 == 7
    if long: sh = (int(rng.integers(200, 3000)),)
    Q = gens.rotors(rng, sh); A = gens.q(Q)
    lay = idx % 4
    if lay == 1: A = np.asfortranarray(A)
    elif lay == 2: A, Q = A[::-1], Q[::-1]
    elif lay == 3 and A.ndim > 1: A, Q = A.swapaxes(0, -1), Q.swapaxes(0, Q.ndim - 2)
    s = spin(rng)
    for _ in range(4):
        l = int(rng.integers(0, 13)) if rng.random() < .7 else int(rng.integers(0, 33))
        if rng.random() < .5: l = min(32, max(l, abs(s)))
        if long: l = l % 6
        m = int(rng.integers(-l, l + 1))
        if rng.random() < .3: m = int(rng.choice([-l, l, max(-l, min(l, s)), max(-l, min(l, -s)), 0]))
        mon.ctx.update(shape=A.shape, s=s, pair=(l, m), Rs=Q)
        pair = [(l, m), [l, m], np.array([l, m])][int(rng.integers(3))]
        mon.close('rotor array', sf.SWSH(A, s, pair), ref.sYlm(Q, s, l)[..., l + m], ref.tol_Y(l) if l >= abs(s) else 1e-300)
        mon.key('array', A.ndim, lay, s, l // 4)
    for x in Q.reshape(-1, 4): mon.region('array rotor ' + gens.region(x))


def small_sweep(mon, rng, idx, tier):
    """every (s, ell, m) with ell<=6 on rotors of every kind, in the rotor-array form"""
    trip = [(s, l, m) for l in range(7) for s in range(-l, l + 1) for m in range(-l, l + 1)]
    s, l, m = trip[idx % len(trip)]
    Q = np.array([gens.rotor(rng, k)[0] for k in gens.KINDS])
    mon.ctx.update(s=s, l=l, m=m, Rs=Q)
    mon.close('rotor array', sf.SWSH(gens.q(Q), s, (l, m)), ref.sYlm(Q, s, l)[:, l + m], ref.tol_Y(l))
    mon.key('sweep', s, l, m)


def grid(mon, rng, idx, tier):
    sh = gens.shape(rng, 3, 4)
    if not sh and rng.random() < .7: sh = (3,)
    long = idx % 80 == 7
    if long: sh = (int(rng.integers(100, 600)),)
    Q = gens.rotors(rng, sh); A = gens.q(Q)
    if not isinstance(A, np.ndarray): A = np.array(A)
    if idx % 3 == 1 and A.ndim > 1: A = np.asfortranarray(A)
    if idx % 3 == 2 and A.ndim > 0: A, Q = A[::-1], Q[::-1]
    s = spin(rng); L = int(rng.integers(0, 11)) if rng.random() < .8 else int(rng.integers(11, 33))
    if long: L = L % 5
    want, tol = fullset(s, L, Q)
    tol = np.where(ref.LMarr(L)[:, 0] < abs(s), 1e-300, tol)
    mon.ctx.update(shape=A.shape, s=s, ell_max=L, Rs=Q)
    mon.close('grid', sf.SWSH_grid(A, s, L), want, tol)
    mon.key('grid', A.ndim, s, L // 4)


WORKLOADS = [W('one_rotor', one_rotor, 2500, 50000), W('rotor_array', rotor_array, 2000, 40000), W('small_sweep', small_sweep, 455 * 4, 455 * 40), W('grid', grid, 900, 20000)]
