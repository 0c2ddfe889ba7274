"""C29: D matrices, harmonics, modes, operators, products and 3-j symbols describe one action of rotations."""
import math
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = rotations P, Q and functions of some spin weights; the modes rotated with the code's own D matrices must give the function at P Q, and rotation must commute with products, conjugation, "
        "derivatives, grids and norm; the exponentials of the code's L and R operators must be its D matrices; products of D matrices must couple with its Clebsch-Gordan coefficients and 3-j families; "
        "distinct = (identity, branch region of P, s, ell)")
ASSUMPTIONS = ["ell up to 12 (modes), 20 (generators, couplings)", "tolerances 2e-13 (1+ell)^2, times the accuracy of the D matrices above ell = 10"]
REQUIRED = ['rotated modes: points', 'rotated modes: composition', 'rotated modes: norm', 'rotated modes: product', 'rotated modes: conjugate', 'rotated modes: eth', 'rotated modes: Casimir', 'rotated modes: grid',
            'L generates left rotations', 'R generates right rotations', 'Clebsch-Gordan series', '3-j series', 'invariant', 'forms agree']
LEADS = [(), (3,), (), (2, 2), (1,), ()]


def D_all(rng, P, L):
    """all D matrices up to L through one of the public forms"""
    form = int(rng.integers(3)); R = gens.q1(P)
    if form == 0: v = np.asarray(sf.Wigner_D_matrices(R, 0, L))
    elif form == 1: v = np.asarray(sf.Wigner_D_element(R, list(range(L + 1)))) if L else np.asarray(sf.Wigner_D_element(R, [0]))
    else: v = np.asarray(sf.Wigner_D_element(complex(R.a), complex(R.b), sf.LMpM_range(0, L)))
    out = []; k = 0
    for l in range(L + 1): n = (2 * l + 1) ** 2; out.append(v[k:k + n].reshape(2 * l + 1, 2 * l + 1)); k += n
    return out


def rotate(w, D):
    """weights of Q -> f(P Q)"""
    o = np.array(w)
    for l, d in enumerate(D): o[..., l * l:(l + 1) ** 2] = w[..., l * l:(l + 1) ** 2] @ d
    return o


def modes(mon, rng, idx, tier):
    lead = LEADS[idx % 6]
    top = 12 if idx % 12 == 5 else 6
    s1, s2 = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
    L1, L2 = (int(rng.integers(max(1, abs(s)), top + 1)) for s in (s1, s2)); L2 = min(L2, max(6, abs(s2)))
    w1 = mg.weights(rng, lead, s1, L1); w2 = mg.weights(rng, lead if rng.random() < .6 else (), s2, L2)
    w1 = w1 / max(mg.scale(w1), 1e-290); w2 = w2 / max(mg.scale(w2), 1e-290)
    P, Q = gens.rotor(rng)[0], gens.rotors(rng, (4,))
    L = L1 + L2; D = D_all(rng, P, L)
    mon.ctx.update(s_f=s1, s_g=s2, ell_max_f=L1, ell_max_g=L2, lead=lead, P=P.tolist())
    t = lambda l: 2e-13 * (1 + l) ** 2 + 4 * (2 * l + 1) * ref.tol_D(2 * l)
    f, g = sf.Modes(w1.copy(), spin_weight=s1), sf.Modes(w2.copy(), spin_weight=s2)
    rf, rg = sf.Modes(rotate(w1, D[:L1 + 1]), spin_weight=s1), sf.Modes(rotate(w2, D[:L2 + 1]), spin_weight=s2)
    nd = lambda x: np.array(x.view(np.ndarray))
    mon.close('rotated modes: points', rf.evaluate(gens.q(Q)), f.evaluate(gens.q(ref.qmul(P, Q))), t(L1) * (1 + L1), Q=Q)
    P2 = gens.rotor(rng)[0]
    mon.close('rotated modes: composition', rotate(nd(rf), D_all(rng, P2, L1)), rotate(w1, D_all(rng, ref.qmul(P, P2), L1)), 2 * t(L1), P2=P2.tolist())
    mon.close('rotated modes: composition', rotate(nd(rf), D_all(rng, ref.qconj(P), L1)), w1, 2 * t(L1))
    mon.close('rotated modes: norm', np.asarray(rf.norm()), np.asarray(f.norm()), t(L1))
    p, rp = f * g, rf * rg
    mon.close('rotated modes: product', nd(rp), rotate(nd(p), D), 2 * t(L))
    mon.close('rotated modes: conjugate', nd(rf.conjugate()), rotate(nd(f.conjugate()), D[:L1 + 1]), t(L1))
    for nm in ('eth', 'ethbar'):
        a, b = getattr(f, nm), getattr(rf, nm); a, b = (x() if callable(x) else x for x in (a, b))
        mon.eq('rotated modes: eth', (a.s, a.ell_max), (b.s, b.ell_max)); mon.close('rotated modes: eth', nd(b), rotate(nd(a), D[:a.ell_max + 1]), t(L1) * (2 + L1))
    for nm in ('Lsquared', 'Rsquared'):
        mon.close('rotated modes: Casimir', nd(getattr(rf, nm)()), rotate(nd(getattr(f, nm)()), D[:L1 + 1]), t(L1) * (2 + L1) ** 2)
    n = 2 * max(L1, abs(s1)) + 1 + int(rng.integers(0, 3))
    G = nd(rf.grid(n, n)); th = sf.theta_phi(n, n); i, j = int(rng.integers(n)), int(rng.integers(n))
    q = ref.from_theta_phi(th[i, j, 0], th[i, j, 1])
    mon.close('rotated modes: grid', G[..., i, j], np.asarray(f.evaluate(gens.q1(ref.qmul(P, q)))).reshape(lead), t(L1) * (1 + L1))
    mon.same('inputs kept', nd(f), w1)
    for k in ('points', 'product', 'eth'): mon.key(k, gens.region(P), s1, s2, L1, L2)
    mon.sample(s_f=s1, s_g=s2, ell_max=(L1, L2), P=P.tolist())


def expi(M, th):
    """exp(i th M) of a Hermitian matrix"""
    v, u = np.linalg.eigh(M)
    return (u * np.exp(1j * th * v)) @ u.conj().T


def generators(mon, rng, idx, tier):
    l = int(rng.integers(0, 9)) if rng.random() < .8 else int(rng.integers(9, 21))
    n = 2 * l + 1; N = (l + 1) ** 2
    ax = rng.normal(size=3)
    if rng.random() < .4: ax = np.eye(3)[int(rng.integers(3))]
    ax = np.asarray(ax, float); ax = ax / np.linalg.norm(ax)
    th = float(rng.choice([np.pi, np.pi / 2, -np.pi, 2 * np.pi, 1e-3, 1e-7])) if rng.random() < .4 else float(rng.uniform(-7, 7))
    P = np.concatenate([[math.cos(th / 2)], math.sin(th / 2) * ax])
    s = int(rng.integers(-l, l + 1)); m = int(rng.integers(-l, l + 1))
    mon.ctx.update(ell=l, axis=ax.tolist(), angle=th, s=s, m=m)
    t = 2e-13 * (1 + l) ** 2 + 2 * ref.tol_D(2 * l)
    D = np.asarray(sf.Wigner_D_element(gens.q1(P), [l])).reshape(n, n)
    # left: the operators on the modes of one ell
    e = np.zeros((n, N), complex); e[:, l * l:] = np.eye(n); f = sf.Modes(e, spin_weight=s)
    Lp, Lm, Lz = (np.array(x().view(np.ndarray))[:, l * l:].T for x in (f.Lplus, f.Lminus, f.Lz))
    X, Y = (Lp + Lm) / 2, (Lp - Lm) / 2j
    mon.close('L generates left rotations', X, X.conj().T, 1e-13 * (1 + l)); mon.close('L generates left rotations', Y, Y.conj().T, 1e-13 * (1 + l))
    mon.close('L generates left rotations', expi(ax[0] * X + ax[1] * Y + ax[2] * Lz, th), D.T, t)
    mon.close('L generates left rotations', np.array(f.Lsquared().view(np.ndarray))[:, l * l:].T, X @ X + Y @ Y + Lz @ Lz, 1e-13 * (1 + l) ** 3)
    # right: the operators between the spin weights of one (ell, m)
    k = l * l + l + m; A = np.zeros((3, n, n), complex)
    for i, ss in enumerate(range(-l, l + 1)):
        w = np.zeros(N, complex); w[k] = 1; y = sf.Modes(w, spin_weight=ss)
        for a, r in enumerate((y.Rplus(), y.Rminus(), y.Rz())):
            v = np.array(r.view(np.ndarray))
            if np.any(v):
                mon.ok('R generates right rotations', abs(r.s) <= l and np.count_nonzero(v) == 1 and v[k] != 0, s=ss, got_s=r.s)
                A[a, r.s + l, i] = v[k]
    X, Y, Z = -(A[0] + A[1]) / 2, (A[0] - A[1]) / 2j, A[2]
    sg = (-1.0) ** np.arange(-l, l + 1)
    mon.close('R generates right rotations', X, X.conj().T, 1e-13 * (1 + l)); mon.close('R generates right rotations', Y, Y.conj().T, 1e-13 * (1 + l))
    mon.close('R generates right rotations', expi(ax[0] * X + ax[1] * Y + ax[2] * Z, th), sg[:, None] * sg * D[::-1, ::-1], t)
    mon.key('generators', l, s, m, gens.region(P)); mon.region(gens.region(P))


def coupling(mon, rng, idx, tier):
    """D^j1 x D^j2 = sum of D^J with Clebsch-Gordan coefficients (and with 3-j symbols)"""
    j1, j2 = (int(rng.integers(0, 7)) for _ in range(2))
    if rng.random() < .15: j1, j2 = int(rng.integers(6, 11)), int(rng.integers(0, 11))
    P = gens.rotor(rng)[0]; J = j1 + j2
    mon.ctx.update(j1=j1, j2=j2, P=P.tolist())
    D = D_all(rng, P, J); t = 2e-13 * (1 + J) ** 2 + 4 * (2 * J + 1) * ref.tol_D(2 * J)
    V = np.zeros(((2 * j1 + 1) * (2 * j2 + 1),) * 2); o = 0; U = np.zeros(V.shape, complex)
    for j in range(abs(j1 - j2), J + 1):
        for m in range(-j, j + 1):
            for m1 in range(max(-j1, m - j2), min(j1, m + j2) + 1): V[(m1 + j1) * (2 * j2 + 1) + m - m1 + j2, o + m + j] = sf.clebsch_gordan(j1, m1, j2, m - m1, j, m)
        U[o:o + 2 * j + 1, o:o + 2 * j + 1] = D[j]; o += 2 * j + 1
    mon.close('Clebsch-Gordan series', V @ U @ V.T, np.kron(D[j1], D[j2]), t)
    # the same with a calculator: D_{a1 b1} D_{a2 b2} = sum_j (2j+1) (3j)(3j) conj D_{-a -b}...
    calc = sf.Wigner3jCalculator(j1, j2) if rng.random() < .5 else sf.Wigner3jCalculator(j1 + int(rng.integers(0, 4)), j2 + int(rng.integers(0, 4)))
    for _ in range(4):
        a1, b1 = (int(x) for x in rng.integers(-j1, j1 + 1, 2)); a2, b2 = (int(x) for x in rng.integers(-j2, j2 + 1, 2)); a, b = a1 + a2, b1 + b2
        x = np.array(calc.calculate(j1, j2, a1, a2)); y = np.array(calc.calculate(j1, j2, b1, b2)); tot = 0
        for j in range(max(abs(j1 - j2), abs(a), abs(b)), J + 1): tot = tot + (2 * j + 1) * (-1.0) ** (a + b) * x[j] * y[j] * D[j][a + j, b + j]
        mon.close('3-j series', tot, D[j1][a1 + j1, b1 + j1] * D[j2][a2 + j2, b2 + j2], t, a1=a1, b1=b1, a2=a2, b2=b2)
    # the 3-j symbol as an invariant: sum over m' of D D D (3j) = (3j)
    j3 = int(rng.integers(abs(j1 - j2), J + 1)); m1 = int(rng.integers(-j1, j1 + 1)); lo, hi = max(-j2, -m1 - j3), min(j2, -m1 + j3)
    if lo <= hi:
        m2 = int(rng.integers(lo, hi + 1)); m3 = -m1 - m2
        W3 = np.array([[sf.Wigner3j(j1, j2, j3, a, b, -a - b) if abs(a + b) <= j3 else 0.0 for b in range(-j2, j2 + 1)] for a in range(-j1, j1 + 1)])
        tot = 0
        for a in range(-j1, j1 + 1):
            for b in range(-j2, j2 + 1):
                if abs(a + b) <= j3: tot = tot + D[j1][m1 + j1, a + j1] * D[j2][m2 + j2, b + j2] * D[j3][m3 + j3, -a - b + j3] * W3[a + j1, b + j2]
        mon.close('invariant', tot, complex(W3[m1 + j1, m2 + j2]), t, m1=m1, m2=m2, m3=m3, j3=j3)
    A = D_all(rng, P, J)
    for l in range(J + 1): mon.close('forms agree', A[l], D[l], 2 * ref.tol_D(2 * l) + 1e-14)
    mon.key('coupling', j1, j2, gens.region(P))


WORKLOADS = [W('modes', modes, 420, 8000), W('generators', generators, 420, 8000), W('coupling', coupling, 300, 6000)]
