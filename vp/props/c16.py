"""C16: the derivative operators are the documented Lie derivatives."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one Modes object; each operator's result is compared mode by mode with the documented action and, at random rotors, with the derivative of the "
        "function along exp(tg)Q or Q exp(tg), obtained exactly from samples along the whole (periodic) orbit; commutators likewise; "
        "distinct = (operator, s, ell_max, leading axes)")
ASSUMPTIONS = ["ell_max up to 10, |s| up to 12", "tolerance 1e-13 relative per mode; 1e-11 (1+ell_max)^3 relative for the orbit derivative"]
OPS = ['Lsquared', 'Lz', 'Lplus', 'Lminus', 'Rsquared', 'Rz', 'Rplus', 'Rminus', 'eth', 'ethbar']
REQUIRED = [o for o in OPS] + ['orbit ' + o for o in OPS] + ['commutator', 'inputs kept', 'composition']
X, Y, Z = np.eye(3)


def call(m, op):
    r = getattr(m, op)
    return r() if callable(r) else r


def action(w, s, L, op):
    """documented action on mode weights: (weights, spin)"""
    lm = ref.LMarr(L); l, m = lm[:, 0].astype(float), lm[:, 1].astype(float)
    ok = l >= abs(s)
    if op in ('Lsquared', 'Rsquared'): return w * (l * (l + 1)), s
    if op == 'Lz': return w * m, s
    if op == 'Rz': return w * (-s), s
    if op in ('Lplus', 'Lminus'):
        d = 1 if op == 'Lplus' else -1
        out = np.zeros_like(w)
        for k, (ll, mm) in enumerate(lm):
            if abs(mm - d) <= ll:
                out[..., k] = np.sqrt((ll + d * mm) * (ll - d * mm + 1.)) * w[..., k - d]
        return out, s
    if op in ('Rminus', 'eth'): s2, f = s + 1, np.sqrt(np.maximum((l - s) * (l + s + 1), 0))
    elif op == 'Rplus': s2, f = s - 1, np.sqrt(np.maximum((l + s) * (l - s + 1), 0))
    else: s2, f = s - 1, -np.sqrt(np.maximum((l + s) * (l - s + 1), 0))
    return w * np.where(ok & (l >= abs(s2)), f, 0), s2


def orbit(w, s, L, Q, g, left):
    """-i/2 d/dt at t=0 of f(exp(tg)Q) or f(Q exp(tg)); exact for the trigonometric polynomial of degree L in 2t"""
    N = 2 * L + 1
    t = np.pi * np.arange(N) / N
    e = np.array([ref.qexp(g, x) for x in t])
    pts = ref.qmul(e, Q) if left else ref.qmul(Q, e)
    v = ref.evaluate(w, s, L, pts)                 # (..., N)
    c = np.fft.fft(v, axis=-1) / N
    k = np.fft.fftfreq(N, 1. / N)
    return np.sum(c * k, axis=-1)                  # -i/2 * (2ik) = k


def lie(mon, rng, idx, tier):
    m, w, s, L = mg.modes(rng, s=int(rng.integers(-12, 13)) if rng.random() < .2 else None, maxL=8 if tier == 'quick' else 10, maxdim=3)
    sh = w.shape[:-1]
    mon.ctx.update(s=s, ell_max=L, shape=sh)
    sc = mg.lscale(w)
    res = {}
    for op in OPS:
        r = call(m, op)
        want, s2 = action(w, s, L, op)
        mg.check_modes(mon, op, r, want, s2, L, 1e-13 * (np.abs(want) + 1e-290))
        res[op] = (r, s2)
        mon.key(op, s, L, len(sh))
    mon.same('inputs kept', m.ndarray, w); mon.eq('inputs kept', (m.s, m.ell_max), (s, L))
    Q = gens.rotor(rng, 'random' if rng.random() < .8 else None)[0]
    tol = 1e-11 * (1 + L) ** 3 * sc[..., 0]
    val = lambda op: ref.evaluate(res[op][0].ndarray, res[op][1], L, Q[None])[..., 0]
    Lx, Ly, Lz = (orbit(w, s, L, Q, g, True) for g in (X, Y, Z))
    Rx, Ry, Rz = (orbit(w, s, L, Q, g, False) for g in (X, Y, Z))
    for op, want in (('Lz', Lz), ('Lplus', Lx + 1j * Ly), ('Lminus', Lx - 1j * Ly), ('Rz', Rz), ('Rplus', -(Rx - 1j * Ry)), ('Rminus', -(Rx + 1j * Ry)),
                     ('eth', -(Rx + 1j * Ry)), ('ethbar', Rx - 1j * Ry)):
        mon.close('orbit ' + op, val(op), want, tol, rotor=Q)
    # squares, by applying the orbit derivative to the first derivatives: L^2 = (L+L- + L-L+)/2 + Lz Lz
    def second(op1, g1, left):
        return orbit(res[op1][0].ndarray, res[op1][1], L, Q, g1, left)
    Lp, Lm = second('Lminus', X, True) + 1j * second('Lminus', Y, True), second('Lplus', X, True) - 1j * second('Lplus', Y, True)
    mon.close('orbit Lsquared', val('Lsquared'), (Lp + Lm) / 2 + second('Lz', Z, True), tol * (1 + L))
    Rp, Rm = -(second('Rminus', X, False) - 1j * second('Rminus', Y, False)), -(second('Rplus', X, False) + 1j * second('Rplus', Y, False))
    mon.close('orbit Rsquared', val('Rsquared'), (Rp + Rm) / 2 + second('Rz', Z, False), tol * (1 + L))
    # commutators, through the real code alone
    C = lambda a, b: call(call(m, b), a).ndarray - call(call(m, a), b).ndarray
    G = lambda o: res[o][0].ndarray
    t2 = 1e-12 * (1 + L) ** 3 * sc
    for a, b, want in (('Lz', 'Lplus', G('Lplus')), ('Lz', 'Lminus', -G('Lminus')), ('Lplus', 'Lminus', 2 * G('Lz')), ('Rz', 'Rplus', G('Rplus')), ('Rz', 'Rminus', -G('Rminus')),
                       ('Rplus', 'Rminus', 2 * G('Rz')), ('Lz', 'Rplus', 0 * G('Lz')), ('Lplus', 'Rminus', 0 * G('Lz')), ('Lsquared', 'Lplus', 0 * G('Lz')), ('ethbar', 'eth', 2 * s * w)):
        mon.close('commutator', C(a, b), want, t2, pair=(a, b))
    # any word in the operators keeps the bookkeeping right
    word = [OPS[int(k)] for k in rng.integers(len(OPS), size=4)]
    mon.ctx.update(word=word)
    x, xw, xs = m, w, s
    for op in word:
        x = call(x, op); xw, xs = action(xw, xs, L, op)
        mg.check_modes(mon, 'composition', x, xw, xs, L, 1e-12 * (np.abs(xw) + 1e-280))
    mon.region('|s|>ell_max' if abs(s) > L else '|s|=ell_max' if abs(s) == L else 's<0' if s < 0 else 's=0' if s == 0 else 's>0')
    mon.sample(s=s, ell_max=L, shape=sh, word=word)


def high(mon, rng, idx, tier):
    """every operator at high ell, mode by mode"""
    L = int(rng.integers(9, 65)); s = int(rng.integers(-L - 2, L + 3)) if rng.random() < .4 else mg.spin(rng)
    m, w, s, L = mg.modes(rng, s=s, L=L, shape=gens.shape(rng, 1, 2))
    mon.ctx.update(s=s, ell_max=L)
    for op in OPS:
        want, s2 = action(w, s, L, op)
        mg.check_modes(mon, op, call(m, op), want, s2, L, 1e-13 * (np.abs(want) + 1e-290))
        mon.key(op, s, L, 'high')
    mon.same('inputs kept', m.ndarray, w)


WORKLOADS = [W('high', high, 120, 2400), W('lie', lie, 1000, 20000)]
