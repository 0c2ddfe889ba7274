"""A catalogue of supported calls over the whole package, used by the monitors that watch *how* calls behave
(memory, purity, repeatability, threads) rather than what they compute.

make(rng) returns a Call: a function, its arguments (arrays among them are the inputs to watch), which arguments are outputs,
and a description.  Arguments cover the extremes of every range.  Results are flattened to a list of plain arrays by flat()."""
import math, types
import numpy as np
import quaternion
import spherical_functions as sf
from spherical_functions.recursions.complex_powers import complex_powers
from spherical_functions.recursions import wignerH as wedge_mod
from spherical_functions.WignerD import WignerDRecursion as full_mod
from . import gens, mg


class Call:
    def __init__(self, name, fn, args, outs=(), tol=1e-10, note='', slow=False):
        self.name, self.fn, self.args, self.outs, self.tol, self.note, self.slow = name, fn, list(args), tuple(outs), tol, note, slow

    def run(self, args=None):
        a = self.args if args is None else args
        r = flat(self.fn(*a))
        for i in self.outs:
            if i != 'w': r += flat(a[i])
        return r

    def written(self):
        """positions of arguments the call may write to: output arrays and workspaces"""
        return [len(self.args) - 1 if i == 'w' else i for i in self.outs]

    def describe(self):
        from .core import short
        return '%s(%s) %s' % (self.name, ', '.join(short(a, 120) for a in self.args), self.note)


def flat(r):
    """Result -> list of plain arrays (values and metadata)"""
    if isinstance(r, sf.Modes): return [np.array(r.view(np.ndarray)), np.array([r.s, r.ell_min, r.ell_max])]
    if isinstance(r, sf.Grid): return [np.array(r.view(np.ndarray)), np.array([r.s, r.n_theta, r.n_phi])]
    if isinstance(r, (tuple, list)): return [x for y in r for x in flat(y)]
    if isinstance(r, np.ndarray) and r.dtype == np.quaternion: return [np.array(quaternion.as_float_array(r))]
    if r is None: return []
    return [np.array(r)]


def ell(rng, top=32, lo=0):
    k = rng.random()
    if k < .12: return lo
    if k < .24: return top
    if k < .8: return int(rng.integers(lo, min(lo + 9, top) + 1))
    return int(rng.integers(lo, top + 1))


def rot(rng): return gens.q1(gens.rotor(rng)[0])
def rots(rng, sh): return gens.q(gens.rotors(rng, sh)).reshape(sh)
def tri(rng, top=64):
    t = [0, top, int(rng.integers(0, top + 1)), int(rng.integers(0, 12))][int(rng.integers(4))]
    f = lambda: [-t, t, -t + 2 * int(rng.integers(0, t + 1))][int(rng.integers(3))]
    return t, f(), f()


# ---- coefficient and index functions ---------------------------------------------------------------------------------
def c_factorial(rng): return Call('factorial', sf.factorial, [int(rng.choice([0, 1, 170, rng.integers(0, 171)]))], tol=0)
def c_binomial(rng):
    n = int(rng.choice([0, 64, rng.integers(0, 65)])); return Call('binomial_coefficient', sf.binomial_coefficient, [n, int(rng.choice([0, n, rng.integers(0, n + 1)]))], tol=0)
def c_ladder(rng):
    t, a, _ = tri(rng); return Call('ladder_operator_coefficient', sf.ladder_operator_coefficient, [t / 2, a / 2], tol=0)
def c_wcoeff(rng):
    t, a, b = tri(rng); return Call('Wigner_coefficient', sf.Wigner_coefficient, [t / 2, a / 2, b / 2], tol=0)
def lr(rng, top=32):
    b = ell(rng, top); return int(rng.choice([0, b, rng.integers(0, b + 1)])), b
def c_lmrange(rng): return Call('LM_range', sf.LM_range, lr(rng), tol=0)
def c_lmindex(rng):
    a, b = lr(rng, 2000); l = int(rng.choice([a, b])); return Call('LM_index', sf.LM_index, [l, int(rng.choice([-l, l, 0])), a], tol=0)
def c_lmsize(rng): return Call('LM_total_size', sf.LM_total_size, lr(rng, 10 ** 6), tol=0)
def c_deduce(rng):
    a, b = lr(rng, 10 ** 5); return Call('LM_deduce_ell_max', sf.LM_deduce_ell_max, [(b + 1) ** 2 - a * a, a], tol=0)
def c_lmpmrange(rng): return Call('LMpM_range', sf.LMpM_range, lr(rng, 12), tol=0)
def c_half(rng):
    a, b = lr(rng, 18); return Call('LMpM_range_half_integer', sf.LMpM_range_half_integer, [a / 2, b / 2], tol=0)
def c_lmpmindex(rng):
    a, b = lr(rng, 1000); f = lambda: int(rng.choice([-b, b, 0])); return Call('LMpM_index', sf.LMpM_index, [b, f(), f(), a], tol=0)
def c_lmpmsize(rng): return Call('LMpM_total_size', sf.LMpM_total_size, lr(rng, 10 ** 4), tol=0)
def c_theta(rng): return Call('theta_phi', sf.theta_phi, [int(x) for x in rng.integers(2, 12, 2)], tol=1e-14)


# ---- 3j --------------------------------------------------------------------------------------------------------------
def three(rng):
    top = [3, 12, 40, 150][int(rng.integers(4))]
    j2, j3 = int(rng.integers(0, top + 1)), int(rng.integers(0, top + 1))
    if rng.random() < .2: j3 = 0
    if rng.random() < .2: j2 = j3
    m2 = int(rng.choice([-j2, j2, rng.integers(-j2, j2 + 1)])); m3 = int(rng.choice([-j3, j3, rng.integers(-j3, j3 + 1)]))
    lo = max(abs(j2 - j3), abs(m2 + m3)); j1 = int(rng.choice([lo, j2 + j3, rng.integers(lo, j2 + j3 + 1)]))
    return j1, j2, j3, -m2 - m3, m2, m3
def c_3j(rng):
    t = three(rng)
    if rng.random() < .2: t = t[:5] + (t[5] + int(rng.integers(-3, 4)),)
    k = int(rng.integers(3)); t = t[k:3] + t[:k] + t[3 + k:] + t[3:3 + k]
    return Call('Wigner3j', sf.Wigner3j, t, tol=1e-9)
def c_cg(rng):
    j1, j2, j3, m1, m2, m3 = three(rng); return Call('clebsch_gordan', sf.clebsch_gordan, [j1, m1, j2, m2, j3, -m3], tol=1e-9)
def calc(a, b, calls):
    c = sf.recursions.Wigner3jCalculator(a, b)
    out = []
    for j2, j3, m2, m3 in calls:
        f = c.calculate(j2, j3, m2, m3)
        out.append(np.array(f[max(abs(j2 - j3), abs(m2 + m3)):j2 + j3 + 1]))
    return out + [int(c.size)]
def c_calc(rng):
    cs = [three(rng) for _ in range(int(rng.integers(1, 5)))]
    a, b = max(c[1] for c in cs), max(c[2] for c in cs)
    return Call('Wigner3jCalculator', calc, [a, b, [(c[1], c[2], c[4], c[5]) for c in cs]], tol=1e-9)


# ---- D, SWSH ---------------------------------------------------------------------------------------------------------
def tris(rng, top=64): return np.array([tri(rng, top) for _ in range(int(rng.integers(1, 8)))]) / 2
def c_D1(rng): return Call('D(R,indices)', sf.Wigner_D_element, [rot(rng), tris(rng)])
def c_D2(rng):
    R = rot(rng); return Call('D(Ra,Rb,indices)', sf.Wigner_D_element, [complex(R.a), complex(R.b), tris(rng)])
def c_D3(rng): return Call('D(R,ells)', sf.Wigner_D_element, [rot(rng), [ell(rng, 9) / 2 for _ in range(int(rng.integers(1, 4)))]])
def c_D4(rng): return Call('D(R,ell,mp,m)', sf.Wigner_D_element, [rot(rng)] + [x / 2 for x in tri(rng)])
def c_D5(rng):
    t, a, b = tri(rng)
    if t % 2 == 0 and rng.random() < .7: t, a, b = t // 2 * 2, a, b
    return Call('D(Rs,ell,mp,m)', sf.Wigner_D_element, [rots(rng, gens.shape(rng, 3, 4) or (1,)), t / 2, a / 2, b / 2])
def c_D6(rng): return Call('D(euler)', sf.Wigner_D_element, [float(x) for x in rng.uniform(-4, 4, 3)] + [tris(rng)])
def c_Dm(rng):
    a, b = lr(rng); b = min(b, 12) if rng.random() < .8 else b; a = min(a, b)
    return Call('Wigner_D_matrices', sf.Wigner_D_matrices, [rot(rng), a, b], slow=b > 16)
def c_Y1(rng):
    s = int(rng.integers(-32, 33)) if rng.random() < .3 else int(rng.integers(-3, 4))
    ind = np.array([(l, int(rng.choice([-l, l, rng.integers(-l, l + 1)]))) for l in [ell(rng) for _ in range(int(rng.integers(2, 9)))]])
    return Call('SWSH(R,s,indices)', sf.SWSH, [rot(rng), s, ind])
def c_Y2(rng):
    s = int(rng.integers(-32, 33)) if rng.random() < .3 else int(rng.integers(-3, 4)); l = ell(rng); m = int(rng.choice([-l, l, rng.integers(-l, l + 1)]))
    return Call('SWSH(Rs,s,pair)', sf.SWSH, [rots(rng, gens.shape(rng, 3, 4) or (2,)), s, np.array([l, m])])
def c_Yg(rng):
    s = int(rng.integers(-4, 5)); return Call('SWSH_grid', sf.SWSH_grid, [rots(rng, gens.shape(rng, 2, 3) or (1,)), s, ell(rng, 32 if rng.random() < .2 else 8)])


# ---- plain-array mode functions ------------------------------------------------------------------------------------------
def wts(rng, sh, a, b): return gens.cplx(rng, tuple(sh) + ((b + 1) ** 2 - a * a,))
def c_mult(rng):
    def one(sh):
        s = int(rng.integers(-2, 3)); a = int(rng.integers(0, 4)); b = a + int(rng.integers(0, 4)); w = wts(rng, sh, a, b)
        w[..., :max(0, s * s - a * a)] = 0
        return [w, a, b, s]
    f, g = [((), ()), ((3,), (3,)), ((2, 3), (2, 3)), ((1,), (4,))][int(rng.integers(4))]
    return Call('multiply', sf.multiply, one(f) + one(g), tol=1e-10)
def c_eth(rng):
    n = ['eth_GHP', 'ethbar_GHP', 'eth_NP', 'ethbar_NP', 'ethbar_inverse_NP'][int(rng.integers(5))]
    s = int(rng.integers(-3, 4)); a = int(rng.integers(0, 5)); b = a + int(rng.integers(0, 6)); w = wts(rng, (), a, b)
    w[..., :max(0, s * s - a * a)] = 0
    if n == 'ethbar_inverse_NP':
        fn = lambda w, s, a, n=n: getattr(sf, n)(w, s, a)[max(0, (abs(s) + 1) ** 2 - a * a):]
        return Call(n, fn, [w, s, a], tol=1e-13)
    return Call(n, getattr(sf, n), [w, s, a], tol=1e-13)
def c_const(rng):
    n = ['constant_as_ell_0_mode', 'constant_from_ell_0_mode', 'vector_as_ell_1_modes', 'vector_from_ell_1_modes'][int(rng.integers(4))]
    sh = gens.shape(rng, 2, 4) + ((3,) if n[0] == 'v' else (1,))
    return Call(n, getattr(sf, n), [rng.normal(size=sh) + 1j * rng.normal(size=sh)], tol=1e-13)


# ---- Modes -----------------------------------------------------------------------------------------------------------
def M(rng, s=None, L=None, sh=None): return mg.modes(rng, s=int(rng.integers(-2, 3)) if s is None else s, L=L, shape=sh, maxL=6)[0]
def c_mnew(rng):
    s = int(rng.integers(-3, 4)); a = int(rng.integers(0, 4)); b = a + int(rng.integers(0, 4)); w = wts(rng, gens.shape(rng, 2, 3), a, b)
    w[..., :max(0, s * s - a * a)] = 0
    return Call('Modes()', lambda w, s, a, b: sf.Modes(w, spin_weight=s, ell_min=a, ell_max=b), [w, s, a, b], tol=0)
def c_munary(rng):
    ops = {'conjugate': lambda m: m.conjugate(), 'bar': lambda m: m.bar, 'norm': lambda m: m.norm(), 'Lsquared': lambda m: m.Lsquared(), 'Lz': lambda m: m.Lz(),
           'Lplus': lambda m: m.Lplus(), 'Lminus': lambda m: m.Lminus(), 'Rsquared': lambda m: m.Rsquared(), 'Rz': lambda m: m.Rz(), 'Rplus': lambda m: m.Rplus(),
           'Rminus': lambda m: m.Rminus(), 'eth': lambda m: m.eth, 'ethbar': lambda m: m.ethbar, 'np.conjugate': np.conjugate, 'np.negative': np.negative,
           'np.positive': np.positive, 'ndarray': lambda m: m.ndarray * 1, 'pickle': lambda m: __import__('pickle').loads(__import__('pickle').dumps(m)), 'copy': lambda m: m.copy()}
    k = sorted(ops)[int(rng.integers(len(ops)))]
    return Call('Modes ' + k, ops[k], [M(rng)], tol=1e-12)
def c_mreal(rng):
    k = int(rng.integers(2)); return Call('Modes ' + 'real imag'.split()[k], [lambda m: m.real, lambda m: m.imag][k], [M(rng, s=0)], tol=1e-13)
def c_mbin(rng):
    ops = {'add': lambda a, b: a.add(b), 'subtract': lambda a, b: a.subtract(b), '+': lambda a, b: a + b, '-': lambda a, b: a - b}
    k = sorted(ops)[int(rng.integers(4))]; s = int(rng.integers(-2, 3)); sh = gens.shape(rng, 2, 3)
    return Call('Modes ' + k, ops[k], [M(rng, s, sh=sh), M(rng, s, sh=sh)], tol=1e-13)
def c_mmul(rng):
    sh = gens.shape(rng, 2, 3); a, b = M(rng, L=int(rng.integers(2, 5)), sh=sh), M(rng, L=int(rng.integers(2, 5)), sh=sh)
    tr = [None, max, min, sum, lambda t: 3][int(rng.integers(5))]
    if tr is None: return Call('Modes *', lambda a, b: a * b, [a, b], tol=1e-10, slow=True)
    return Call('Modes.multiply', lambda a, b: a.multiply(b, truncator=tr), [a, b], tol=1e-10, slow=True)
def c_mscal(rng):
    sh = gens.shape(rng, 2, 3); a = M(rng, sh=sh); c = [2.5, -1.5 + 2j, 3, rng.normal(size=sh) + 2 if sh else 1.25][int(rng.integers(4))]
    ops = {'*': lambda a, c: a * c, 'r*': lambda a, c: c * a, '/': lambda a, c: a / c, 'multiply': lambda a, c: a.multiply(c), 'divide': lambda a, c: a.divide(c)}
    k = sorted(ops)[int(rng.integers(5))]
    return Call('Modes scalar ' + k, ops[k], [a, c], tol=1e-13)
def c_mutil(rng):
    k = int(rng.integers(4)); m = M(rng)
    if k == 0: return Call('Modes.truncate_ell', lambda m, l: m.truncate_ell(l), [m, int(rng.integers(0, m.ell_max + 1))], tol=0)
    if k == 1: return Call('Modes.evaluate', lambda m, R: m.evaluate(R), [m, rots(rng, gens.shape(rng, 2, 3) or (2,))], tol=1e-11)
    if k == 2: m = M(rng, L=int(rng.integers(2, 6))); n = 2 * m.ell_max + 1 + int(rng.integers(0, 3)); return Call('Modes.grid', lambda m, n: m.grid(n, n), [m, n], tol=1e-11)
    m = M(rng, L=int(rng.integers(2, 6))); l = int(rng.integers(abs(m.s), m.ell_max + 1)); return Call('Modes.index', lambda m, l, k: m.index(l, k), [m, l, int(rng.integers(-l, l + 1))], tol=0)


# ---- Grid ------------------------------------------------------------------------------------------------------------
def G(rng, s=None, sh=None, n=None):
    s = int(rng.integers(-2, 3)) if s is None else s
    nt, nph = n or mg.grid_size(rng, s, 4); nt, nph = max(nt, 5), max(nph, 5)
    return sf.Grid(mg.gridvals(rng, s, nt, nph, gens.shape(rng, 2, 3) if sh is None else sh), spin_weight=s)
def c_gun(rng):
    ops = {'conjugate': lambda g: g.conjugate(), 'bar': lambda g: g.bar, 'absolute': lambda g: g.absolute(), 'np.conjugate': np.conjugate, 'np.absolute': np.absolute,
           'np.negative': np.negative, 'ndarray': lambda g: g.ndarray * 1, 'pickle': lambda m: __import__('pickle').loads(__import__('pickle').dumps(m)), 'copy': lambda m: m.copy()}
    k = sorted(ops)[int(rng.integers(len(ops)))]
    return Call('Grid ' + k, ops[k], [G(rng)], tol=1e-13)
def c_gbin(rng):
    ops = {'add': (lambda a, b: a.add(b), 1), 'subtract': (lambda a, b: a.subtract(b), 1), '+': (lambda a, b: a + b, 1), '-': (lambda a, b: a - b, 1),
           'multiply': (lambda a, b: a.multiply(b), 0), '*': (lambda a, b: a * b, 0), 'divide': (lambda a, b: a.divide(b), 0), '/': (lambda a, b: a / b, 0)}
    k = sorted(ops)[int(rng.integers(len(ops)))]; s = int(rng.integers(-1, 2)); sh = gens.shape(rng, 2, 3); n = int(rng.integers(9, 12)), int(rng.integers(9, 12))
    return Call('Grid ' + k, ops[k][0], [G(rng, s, sh, n), G(rng, s if ops[k][1] else int(rng.integers(-1, 2)), sh, n)], tol=1e-13)
def c_gscal(rng):
    g = G(rng); c = [2.5, -1.5 + 2j, 3][int(rng.integers(3))]
    ops = {'*': lambda a, c: a * c, 'r*': lambda a, c: c * a, '/': lambda a, c: a / c, '**': lambda g, c: g ** 2}
    k = sorted(ops)[int(rng.integers(4))]
    if k == '**': g = G(rng, s=int(rng.integers(-1, 2)), n=(9, 9))
    return Call('Grid scalar ' + k, ops[k], [g, c], tol=1e-13)
def c_gmodes(rng):
    s = int(rng.integers(-2, 3)); n = int(rng.integers(5, 12)); g = G(rng, s, n=(n, n)); L = (n - 1) // 2
    return Call('Grid.modes', lambda g, L: g.modes(L), [g, int(rng.integers(abs(s), L + 1))], tol=1e-11)


# ---- recursions ------------------------------------------------------------------------------------------------------
def cosb(rng):
    sh = gens.shape(rng, 2, 4); c = np.cos(rng.uniform(0, np.pi, sh))
    if sh and rng.random() < .3: c.reshape(-1)[0] = rng.choice([-1.0, 0.0, 1.0])
    return np.asarray(c)
def c_H(rng):
    mod = [wedge_mod, full_mod][int(rng.integers(2))]; n = int(rng.choice([0, 1, 2, rng.integers(0, 13)]))
    return Call('%s.HCalculator' % mod.__name__.split('.')[-1], lambda n, c: mod.HCalculator(n)(c), [n, cosb(rng)], tol=1e-11)
def c_Hw(rng):
    mod = [wedge_mod, full_mod][int(rng.integers(2))]; n = int(rng.choice([0, 1, 2, rng.integers(0, 9)])); c = cosb(rng)
    hc = mod.HCalculator(n); w = hc.workspace(c); w[...] = rng.normal() * 9
    return Call('%s.HCalculator(workspace)' % mod.__name__.split('.')[-1], lambda n, c, w: np.array(mod.HCalculator(n)(c, None, w)), [n, c, w], outs=['w'], tol=1e-11)
def c_wedge(rng):
    l = ell(rng, 40); a, b = int(rng.integers(-l, l + 1)), int(rng.integers(-l, l + 1))
    return Call('wedge_index', lambda l, a, b: int(wedge_mod.wedge_index(*wedge_mod.wedgeify_index(l, a, b))), [l, a, b], tol=0)
def unitz(rng, sh): return np.exp(1j * rng.uniform(-np.pi, np.pi, sh)) if rng.random() < .8 else rng.choice([1, -1, 1j, -1j], sh) * np.ones(sh, complex)
def c_cp(rng):
    return Call('complex_powers', complex_powers, [np.asarray(unitz(rng, gens.shape(rng, 3, 4))), int(rng.choice([0, 1, 2, rng.integers(0, 40)]))], tol=1e-12)
# ---- output arguments: args[outs] are filled ---------------------------------------------------------------------------
def c_cpo(rng):
    sh = gens.shape(rng, 2, 4); Mx = int(rng.choice([0, 1, 2, rng.integers(0, 20)]))
    return Call('complex_powers(out)', complex_powers, [np.asarray(unitz(rng, sh)), Mx, np.full(sh + (Mx + 1,), np.nan, complex)], outs=[2], tol=1e-12)
def c_kD(rng):
    R = rot(rng); ind = np.array([tri(rng) for _ in range(int(rng.integers(1, 8)))])
    return Call('_Wigner_D_element', sf._Wigner_D_element, [complex(R.a), complex(R.b), ind, np.full(len(ind), np.nan, complex)], outs=[3])
def c_kM(rng):
    R = rot(rng); a, b = lr(rng, 12)
    return Call('_Wigner_D_matrices', sf._Wigner_D_matrices, [complex(R.a), complex(R.b), a, b, np.full(sf.LMpM_total_size(a, b), np.nan, complex)], outs=[4])
def c_kY(rng):
    R = rot(rng); s = int(rng.integers(-4, 5)); ind = np.array([(l, int(rng.choice([-l, l, rng.integers(-l, l + 1)]))) for l in [ell(rng) for _ in range(int(rng.integers(1, 9)))]])
    return Call('_SWSH', sf._SWSH, [complex(R.a), complex(R.b), s, ind, np.full(len(ind), np.nan, complex)], outs=[4])


BUILDERS = [c_factorial, c_binomial, c_ladder, c_wcoeff, c_lmrange, c_lmindex, c_lmsize, c_deduce, c_lmpmrange, c_half, c_lmpmindex, c_lmpmsize, c_theta,
            c_3j, c_cg, c_calc, c_D1, c_D2, c_D3, c_D4, c_D5, c_D6, c_Dm, c_Y1, c_Y2, c_Yg, c_mult, c_eth, c_const, c_mnew, c_munary, c_munary, c_munary, c_mreal, c_mbin, c_mmul,
            c_mscal, c_mutil, c_mutil, c_gun, c_gbin, c_gbin, c_gscal, c_gmodes, c_H, c_Hw, c_wedge, c_cp, c_cpo, c_kD, c_kM, c_kY]
KERNELS = {c_kD: ('_Wigner_D_element', 4), c_kM: ('_Wigner_D_matrices', 5), c_kY: ('_SWSH', 5)}


def make(rng, idx=None):
    b = BUILDERS[idx % len(BUILDERS)] if idx is not None else BUILDERS[int(rng.integers(len(BUILDERS)))]
    if b in KERNELS and gens.work(*KERNELS[b]) is None: b = c_D1      # work functions are not part of the documented interface
    return b(rng)


def scale(r): return max([1e-300] + [float(np.max(np.abs(x))) for x in r if x.size and x.dtype.kind in 'fc' and np.all(np.isfinite(x))])


def same(a, b, tol):
    """None, or a description of the first difference between two flattened results.  Floating values agree to tol (relative to the largest)."""
    if len(a) != len(b): return 'different number of results: %d and %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape: return 'result %d: shapes %s and %s' % (i, x.shape, y.shape)
        if x.dtype.kind in 'fc' or y.dtype.kind in 'fc':
            fx, fy = np.isfinite(x), np.isfinite(y)
            if not np.array_equal(fx, fy): return 'result %d: finite in one, not in the other: %s and %s' % (i, x[fx != fy][:3], y[fx != fy][:3])
            t = max(tol, 2e-15) * max(scale([x]), 1e-300)
            d = np.abs(np.where(fx, x, 0) - np.where(fy, y, 0))
            if d.size and np.max(d) > t:
                k = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
                return 'result %d at %s: %r and %r (allowed %.3g)' % (i, k, x[k], y[k], t)
        elif not np.array_equal(x, y): return 'result %d: %s and %s' % (i, x.reshape(-1)[:6], y.reshape(-1)[:6])
    return None
