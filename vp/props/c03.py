"""C03: every calling form of Wigner_D_element / Wigner_D_matrices gives the same elements, order, shape."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = ("case = rotor(s) x a list of valid (ell,mp,m) (any order, repeats, mixed integer and half-integer ell) asked for in every documented form; "
        "distinct = (form, kind of index list, kind of rotor)")
ASSUMPTIONS = ["forms are compared with the reference D and so with each other; tolerance as in C01, Euler-angle form with 1e-13*(ell+1) more"]
REQUIRED = ['R,ell,mp,m', 'R,indices', 'R,ells', 'R,ell', 'Ra,Rb,ell,mp,m', 'Ra,Rb,indices', 'euler,ell,mp,m', 'euler,indices',
            'Rs,ell,mp,m', 'Rs shape', 'rounded indices', 'scalar result', 'matrices order']


def triple(rng, maxtwo=64):
    t = int(rng.integers(0, maxtwo + 1)) if rng.random() < .3 else int(rng.integers(0, min(17, maxtwo + 1)))
    return t, -t + 2 * int(rng.integers(0, t + 1)), -t + 2 * int(rng.integers(0, t + 1))


def num(rng, two):
    """two/2 as an int, numpy int or float"""
    if two % 2: return [two / 2, np.float64(two / 2)][rng.integers(2)]
    return [two // 2, two / 2, np.int64(two // 2), np.float64(two / 2)][rng.integers(4)]


def want(q, ind2):
    cache = {}
    out = []
    for t, a, b in ind2:
        if t not in cache: cache[t] = ref.D_matrix(t, q)
        out.append(cache[t][..., (a + t) // 2, (b + t) // 2])
    return np.array(out), np.array([ref.tol_D(t) for t, _, _ in ind2])


def forms(mon, rng, idx, tier):
    q, kind = gens.rotor(rng)
    R = gens.q1(q)
    k = int(rng.integers(1, 12))
    ind2 = [triple(rng) for _ in range(k)]
    lk = 'mixed'
    if rng.random() < .3: ind2 = [(t + t % 2, a, b) for t, a, b in ind2 if a % 2 == 0 and b % 2 == 0 and t % 2 == 0] or [(4, 2, -2)]; lk = 'integer'
    if rng.random() < .2: ind2 = ind2 + ind2[::-1]; lk += ' repeated'
    w, tol = want(q, ind2)
    arr = np.array(ind2) / 2
    idxs = arr.tolist() if rng.random() < .5 else arr
    if lk.startswith('integer') and rng.random() < .7: idxs = np.array(ind2) // 2
    Ra, Rb = complex(R.a), complex(R.b)
    mon.ctx.update(R=q.tolist(), indices=arr.tolist())
    # indices that carry rounding error mean the nearest (half-)integers
    nd = np.array([[gens.nudge(rng, x) for x in r] for r in arr.tolist()])
    mon.close('rounded indices', sf.Wigner_D_element(R, nd), w, tol, given=nd)
    mon.close('rounded indices', sf.Wigner_D_element(Ra, Rb, nd), w, tol, given=nd)
    mon.close('rounded indices', sf.Wigner_D_element(R, *[float(x) for x in nd[0]]), w[0], tol[0], given=nd[0])
    mon.close('R,indices', sf.Wigner_D_element(R, idxs), w, tol)
    mon.close('Ra,Rb,indices', sf.Wigner_D_element(Ra, Rb, idxs), w, tol)
    for (t, a, b), wv, tv in list(zip(ind2, w, tol))[:3]:
        e = (num(rng, t), num(rng, a), num(rng, b))
        g = sf.Wigner_D_element(R, *e)
        mon.ok('scalar result', np.ndim(g) == 0 and isinstance(g, (complex, np.complexfloating)), got=g, indices=e)
        mon.close('R,ell,mp,m', g, wv, tv)
        g = sf.Wigner_D_element(Ra, Rb, *e)
        mon.ok('scalar result', np.ndim(g) == 0, got=g, indices=e)
        mon.close('Ra,Rb,ell,mp,m', g, wv, tv)
    for f in ('R,ell,mp,m', 'R,indices', 'Ra,Rb,indices', 'Ra,Rb,ell,mp,m'): mon.key(f, lk, kind)
    mon.sample(R=q.tolist(), indices=arr.tolist())


def real_parts(mon, rng, idx, tier):
    """(Ra, Rb) given as Python or numpy reals as well as complex"""
    t = rng.uniform(-np.pi, np.pi)
    Ra, Rb = [(np.cos(t), np.sin(t)), (complex(np.cos(t)), np.sin(t)), (np.cos(t), complex(np.sin(t))), (1.0, 0.0), (0.0, 1.0), (1, 0), (0, -1),
              (np.complex128(np.cos(t)), np.float64(np.sin(t)))][idx % 8]
    q = np.array([complex(Ra).real, complex(Rb).imag, complex(Rb).real, complex(Ra).imag])
    ind2 = [triple(rng) for _ in range(4)]
    w, tol = want(q, ind2)
    mon.ctx.update(Ra=Ra, Rb=Rb, twice_indices=ind2)
    for (a, b, c), wv, tv in zip(ind2, w, tol):
        mon.close('Ra,Rb,ell,mp,m', sf.Wigner_D_element(Ra, Rb, a / 2, b / 2, c / 2), wv, tv)
    mon.close('Ra,Rb,indices', sf.Wigner_D_element(Ra, Rb, np.array(ind2) / 2), w, tol)
    mon.key('real parts', idx % 8)


def ells(mon, rng, idx, tier):
    q, kind = gens.rotor(rng)
    R = gens.q1(q)
    n = int(rng.integers(1, 5))
    two = [int(x) for x in rng.integers(0, 25, n)]
    if rng.random() < .2: two[0] = int(rng.integers(50, 65))
    if rng.random() < .4: two = [t - t % 2 for t in two]
    ind2 = [(t, a, b) for t in two for a in range(-t, t + 1, 2) for b in range(-t, t + 1, 2)]
    w, tol = want(q, ind2)
    lst = [t / 2 for t in two]
    if all(t % 2 == 0 for t in two) and rng.random() < .6: lst = [t // 2 for t in two]
    mon.ctx.update(R=q.tolist(), ells=lst)
    for arg in (lst, np.array(lst)):
        mon.close('R,ells', sf.Wigner_D_element(R, arg), w, tol)
    mon.close('Ra,Rb,ells', sf.Wigner_D_element(complex(R.a), complex(R.b), lst), w, tol)
    t = two[0]
    sel = [i for i, x in enumerate(ind2) if x[0] == t][: (t + 1) ** 2]
    g = sf.Wigner_D_element(R, lst[0])
    if t == 0: g = np.atleast_1d(g)
    mon.close('R,ell', g, w[sel], tol[sel], ell=lst[0])
    mon.key('ells', tuple(x % 2 for x in two), kind)


def euler(mon, rng, idx, tier):
    al, be, ga = rng.uniform(-2 * np.pi, 2 * np.pi), rng.uniform(0, np.pi), rng.uniform(-2 * np.pi, 2 * np.pi)
    if rng.random() < .3: be = float(rng.choice([0.0, np.pi, np.pi / 2, 1e-9, 1e-3, np.pi - 1e-5]))
    if rng.random() < .2: al = ga = 0.0
    q = ref.from_euler(al, be, ga)
    ind2 = [triple(rng, 40) for _ in range(5)]
    w, tol = want(q, ind2)
    tol = tol + np.array([1e-13 * (t + 1) for t, _, _ in ind2])
    mon.ctx.update(euler=(al, be, ga), twice_indices=ind2)
    mon.close('euler,indices', sf.Wigner_D_element(al, be, ga, np.array(ind2) / 2), w, tol)
    for (a, b, c), wv, tv in zip(ind2, w, tol):
        g = sf.Wigner_D_element(al, be, ga, a / 2, b / 2, c / 2)
        mon.ok('scalar result', np.ndim(g) == 0, got=g)
        mon.close('euler,ell,mp,m', g, wv, tv)
    t = int(rng.integers(0, 9))
    full = [(t, a, b) for a in range(-t, t + 1, 2) for b in range(-t, t + 1, 2)]
    w, tol = want(q, full)
    mon.close('euler,ells', sf.Wigner_D_element(al, be, ga, [t / 2]), w, tol + 1e-13 * (t + 1))
    mon.key('euler', 'pole' if be in (0.0, np.pi) else 'generic', t)


def rotor_arrays(mon, rng, idx, tier):
    sh = gens.shape(rng, 3, 5)
    if len(sh) == 0: sh = (1,)
    if rng.random() < .05: sh = sh[:-1] + (0,)
    Q = gens.rotors(rng, sh)
    A = gens.q(Q)
    lay = ['C', 'F', 'reversed', 'strided'][idx % 4]
    if lay == 'F': A = np.asfortranarray(A)
    elif lay == 'reversed': A, Q = A[::-1], Q[::-1]
    elif lay == 'strided': A, Q = A[..., ::2], Q[..., ::2, :]
    t, a, b = triple(rng)
    mon.ctx.update(shape=A.shape, layout=lay, twice=(t, a, b), Rs=Q)
    g = sf.Wigner_D_element(A, num(rng, t), num(rng, a), num(rng, b))
    mon.eq('Rs shape', np.shape(g), A.shape)
    if A.size:
        mon.close('Rs,ell,mp,m', g, ref.D_matrix(t, Q)[..., (a + t) // 2, (b + t) // 2], ref.tol_D(t))
    mon.key('Rs', A.ndim, lay, t % 2)


def matrices_order(mon, rng, idx, tier):
    q, kind = gens.rotor(rng)
    R = gens.q1(q)
    a = int(rng.integers(0, 13)); b = int(rng.integers(a, 14))
    if rng.random() < .1: b = int(rng.integers(20, 33)); a = int(rng.integers(b - 2, b + 1))
    ind = np.array(ref.LMpM(a, b))
    mon.ctx.update(R=q.tolist(), ell_min=a, ell_max=b)
    got = sf.Wigner_D_matrices(R, a, b)
    el = sf.Wigner_D_element(R, ind)
    tol = np.array([2 * ref.tol_D(2 * l) for l in ind[:, 0]])
    mon.same('LMpM_range', sf.LMpM_range(a, b), ind)
    mon.close('matrices order', got, el, tol)
    # the work functions fill every requested element and nothing else
    pad = 7
    buf = np.full(len(ind) + 2 * pad, 123.25 - 7.5j)
    f = gens.work('_Wigner_D_matrices', 5)
    if f is not None:
        f(R.a, R.b, a, b, buf[pad:-pad])
        mon.close('work function fills', buf[pad:-pad], el, tol)
        mon.ok('nothing else written', np.all(buf[:pad] == 123.25 - 7.5j) and np.all(buf[-pad:] == 123.25 - 7.5j), buf=buf)
    buf = np.full(2 * len(ind) + 2 * pad, 123.25 - 7.5j)
    f = gens.work('_Wigner_D_element', 4)
    if f is not None:
        f(R.a, R.b, 2 * ind, buf[pad:-pad:2])
        mon.close('work function fills', buf[pad:-pad:2], el, tol)
        rest = np.delete(buf, np.arange(pad, len(buf) - pad, 2))
        mon.ok('nothing else written', np.all(rest == 123.25 - 7.5j))
    mon.key('matrices', a, b)


WORKLOADS = [W('forms', forms, 3000, 60000), W('real_parts', real_parts, 400, 8000), W('ells', ells, 1000, 20000), W('euler', euler, 1200, 30000),
             W('rotor_arrays', rotor_arrays, 2400, 60000), W('matrices_order', matrices_order, 600, 12000)]
