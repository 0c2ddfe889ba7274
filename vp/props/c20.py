"""C20: Grid arithmetic acts on values and tracks the spin weight."""
import copy, pickle
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = "case = one or two grids through every operation in every spelling (operator, ufunc, method); distinct = (operation, s1, s2, leading axes)"
ASSUMPTIONS = ["values are bounded away from zero where divided by", "tolerance 1e-13 relative to the operands' values",
               "Grid.add and Grid.subtract as methods take Grids or scalars (not leading-shape arrays)"]
REQUIRED = ['add', 'subtract', 'multiply', 'divide', 'scalar', 'array', 'conjugate', 'absolute', 'real', 'imag', 'power', 'square', 'sqrt', 'reciprocal', 'positive', 'negative', 'constant',
            'copy', 'pickle', 'slice', 'inputs kept', 'constructor', 'too small refused', 'missing spin refused', 'too few axes refused', 'compare', 'array refused', 'from Grid', 'too big spin refused']


def pair_shapes(rng):
    full = gens.shape(rng, 3, 3, long=.015, top=150)
    f = lambda: tuple(n if rng.random() < .75 else 1 for n in full)[int(rng.integers(0, len(full) + 1)) if rng.random() < .4 else 0:]
    return f(), f()


def mk(rng, s, nt, nph, sh, zeros=False):
    v = mg.gridvals(rng, s, nt, nph, sh)
    if zeros: v = v * (rng.random(v.shape) < .6)
    return sf.Grid(v.copy(), spin_weight=s), v


def binary(mon, rng, idx, tier):
    a, b = pair_shapes(rng)
    s1, s2 = int(rng.integers(-4, 5)), int(rng.integers(-4, 5))
    nt, nph = mg.grid_size(rng, 8, 4) if rng.random() < .4 else mg.grid_size(rng, abs(s1) + abs(s2), 5)
    g1, v1 = mk(rng, s1, nt, nph, a, rng.random() < .2); g2, v2 = mk(rng, s2, nt, nph, b); g3, v3 = mk(rng, s1, nt, nph, b)
    mon.ctx.update(s1=s1, s2=s2, shapes=(a, b), n=(nt, nph))
    for r in (g1 + g3, np.add(g1, g3), g1.add(g3)): mg.check_grid(mon, 'add', r, v1 + v3, s1, 1e-13 * (np.abs(v1) + np.abs(v3)) + 1e-290)
    for r in (g1 - g3, np.subtract(g1, g3), g1.subtract(g3)): mg.check_grid(mon, 'subtract', r, v1 - v3, s1, 1e-13 * (np.abs(v1) + np.abs(v3)) + 1e-290)
    for r in (g1 * g2, np.multiply(g1, g2), g1.multiply(g2)): mg.check_grid(mon, 'multiply', r, v1 * v2, s1 + s2, 1e-13 * np.abs(v1 * v2) + 1e-290)
    for r in (g1 / g2, np.divide(g1, g2), np.true_divide(g1, g2), g1.divide(g2)): mg.check_grid(mon, 'divide', r, v1 / v2, s1 - s2, 1e-13 * np.abs(v1 / v2) + 1e-290)
    for g, v, s in ((g1, v1, s1), (g2, v2, s2), (g3, v3, s1)):
        mon.same('inputs kept', g.ndarray, v); mon.eq('inputs kept', g.s, s)
    # comparisons give plain booleans
    mon.same('compare', g1 == g1.copy(), np.ones(v1.shape, bool)); mon.same('compare', np.not_equal(g1, g1 * 2), v1 != 0); mon.same('compare', np.isfinite(g1), np.ones(v1.shape, bool))
    mon.key('binary', s1, s2, len(a), len(b))
    mon.sample(s1=s1, s2=s2, shapes=(a, b), n=(nt, nph))


def factors(mon, rng, idx, tier):
    s = int(rng.integers(-4, 5)); sh = gens.shape(rng, 3, 3, long=.015, top=150)
    nt, nph = mg.grid_size(rng, s)
    if rng.random() < .3 and sh: nt, nph = max(nt, sh[-1]), max(nph, sh[-1])
    g, v = mk(rng, s, nt, nph, sh)
    mon.ctx.update(s=s, shape=sh, n=(nt, nph))
    for c in (2, -0.5, 1j, 3 - 4j, np.float64(7), np.complex128(1j), np.int64(3)):
        for r in (g * c, c * g, np.multiply(g, c), np.multiply(c, g), g.multiply(c)): mg.check_grid(mon, 'scalar', r, v * c, s, 1e-13 * np.abs(v * c))
        for r in (g / c, np.divide(g, c), g.divide(c)): mg.check_grid(mon, 'scalar', r, v / c, s, 1e-13 * np.abs(v / c))
        for r in (c / g, np.divide(c, g)): mg.check_grid(mon, 'scalar', r, c / v, -s, 1e-13 * np.abs(c / v))
    ash = tuple(n if rng.random() < .7 else 1 for n in sh)[int(rng.integers(0, len(sh) + 1)):]
    a = rng.normal(size=ash) + 3 if rng.random() < .5 else gens.cplx(rng, ash) + 4
    e = np.asarray(a)[..., None, None]
    for r in (g * a, np.multiply(g, a), np.multiply(a, g), g.multiply(a), np.asarray(a) * g): mg.check_grid(mon, 'array', r, v * e, s, 1e-13 * np.abs(v * e))
    for r in (g / a, np.divide(g, a), g.divide(a)): mg.check_grid(mon, 'array', r, v / e, s, 1e-13 * np.abs(v / e))
    mg.check_grid(mon, 'array', np.divide(a, g), e / v, -s, 1e-13 * np.abs(e / v))
    zeros = [0, 0.0, 0j, np.zeros(ash)]
    if s == 0:
        for c in (1.5, -2j, 3, 0):
            for r, w in ((g + c, v + c), (c + g, v + c), (g - c, v - c), (c - g, c - v), (np.add(g, c), v + c), (np.subtract(c, g), c - v), (g.add(c), v + c), (g.subtract(c), v - c)):
                mg.check_grid(mon, 'constant', r, w, 0, 1e-13 * (np.abs(v) + abs(c)))
        for r, w in ((g + a, v + e), (np.add(a, g), v + e), (g - a, v - e), (np.subtract(a, g), e - v)): mg.check_grid(mon, 'constant', r, w, 0, 1e-13 * (np.abs(v) + np.abs(e)))
    else:
        for z in zeros:
            for r, w in ((g + z, v), (z + g, v), (g - z, v), (np.subtract(z, g), -v)) + (((g.add(z), v), (g.subtract(z), v)) if np.ndim(z) == 0 else ()):
                mg.check_grid(mon, 'constant', r, w, s, 1e-13 * np.abs(v))
        for c in (1.5, np.ones(ash)):
            for f in (lambda: g + c, lambda: np.add(c, g), lambda: g - c, lambda: np.subtract(c, g)): mon.raises('constant refused', Exception, f)
        some = np.zeros((nt, nph), complex); some[int(rng.integers(nt)), int(rng.integers(nph))] = rng.choice([1.5, 1j, -1e-200])
        for f in (lambda: g.add(1.5), lambda: g.subtract(1j), lambda: g.add(some), lambda: g.subtract(some), lambda: g.subtract(1e-200), lambda: g.add(-1e-200j)): mon.raises('constant refused', ValueError, f)
    bad = np.ones(sh + (1,))
    for f in (lambda: g * bad, lambda: g / bad, lambda: g.multiply(bad), lambda: g.divide(bad), lambda: np.multiply(bad, g)): mon.raises('array refused', Exception, f)
    mon.same('inputs kept', g.ndarray, v); mon.eq('inputs kept', g.s, s)
    mon.key('factors', s, len(sh), len(ash))


def unary(mon, rng, idx, tier):
    s = 0 if rng.random() < .25 else int(rng.integers(-4, 5)); sh = gens.shape(rng, 3, 3, long=.015, top=150)
    nt, nph = mg.grid_size(rng, 2 * s)
    z = rng.random() < .25                       # with exact zeros: nothing is divided by
    g, v = mk(rng, s, nt, nph, sh, z)
    mon.ctx.update(s=s, shape=sh, n=(nt, nph))
    t = 1e-13 * np.abs(v) + 1e-290
    for r in (g.conjugate(), g.conj(), g.bar, np.conjugate(g), np.conj(g)): mg.check_grid(mon, 'conjugate', r, v.conj(), -s, t)
    for r in (abs(g), np.abs(g), np.absolute(g), g.absolute()): mg.check_grid(mon, 'absolute', r, np.abs(v), 0, t)
    for r in (+g, np.positive(g)): mg.check_grid(mon, 'positive', r, v, s, t)
    for r in (-g, np.negative(g)): mg.check_grid(mon, 'negative', r, -v, s, t)
    for r in (np.square(g), g ** 2): mg.check_grid(mon, 'square', r, v * v, 2 * s, 1e-13 * np.abs(v * v) + 1e-290)
    for r in () if z else (np.reciprocal(g), g ** -1, 1 / g): mg.check_grid(mon, 'reciprocal', r, 1 / v, -s, 1e-13 / np.abs(v))
    if s % 2 == 0: mg.check_grid(mon, 'sqrt', np.sqrt(g), np.sqrt(v), s // 2, 1e-13 * np.sqrt(np.abs(v)) + 1e-290)
    else: mon.raises('sqrt refused', Exception, np.sqrt, g)
    for p in range(0 if z else -4, 5):
        if 2 * abs(p * s) + 1 <= min(nt, nph):
            for r in (np.power(g, p), g ** p, np.power(g, float(p)), np.power(g, np.int64(p))): mg.check_grid(mon, 'power', r, v ** p, p * s, 1e-12 * np.abs(v ** p) + 1e-290)
        else:
            for f in (lambda: np.power(g, p), lambda: g ** p): mon.raises('too big spin refused', ValueError, f)
    if s == 0:
        mg.check_grid(mon, 'real', g.real, v.real, 0, t); mg.check_grid(mon, 'imag', g.imag, v.imag, 0, t)
    else:
        for n in ('real', 'imag'): mon.raises('parts refused', ValueError, lambda: getattr(g, n))
    # products that need too many points
    lim = (min(nt, nph) - 1) // 2
    if s:
        x, _ = mk(rng, lim if s > 0 else -lim, nt, nph, ()); y = x.conjugate()
        for f in (lambda: g * x, lambda: g.multiply(x), lambda: g / y, lambda: g.divide(y)): mon.raises('too big spin refused', ValueError, f)
    mon.same('inputs kept', g.ndarray, v); mon.eq('inputs kept', g.s, s)
    mon.key('unary', s, len(sh))


def objects(mon, rng, idx, tier):
    s = int(rng.integers(-5, 6)); sh = gens.shape(rng, 3, 3, long=.015, top=150); nt, nph = mg.grid_size(rng, s)
    v = mg.gridvals(rng, s, nt, nph, sh)
    mon.ctx.update(s=s, shape=sh, n=(nt, nph))
    g = [lambda: sf.Grid(v.copy(), spin_weight=s), lambda: sf.Grid(v.copy(), s), lambda: sf.Grid(input_array=v.copy(), spin_weight=s), lambda: sf.Grid(v.tolist(), s), lambda: sf.Grid(np.asfortranarray(v), s)][idx % 5]()
    mg.check_grid(mon, 'constructor', g, v, s, 1e-300)
    made = []
    for k, c in [('copy', g.copy()), ('copy', copy.copy(g)), ('copy', copy.deepcopy(g))] + [('pickle', pickle.loads(pickle.dumps(g, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]:
        mg.check_grid(mon, k, c, v, s, 1e-300); made.append(c)
    mg.check_grid(mon, 'copy', np.zeros_like(g), 0 * v, s, 1e-300)
    mg.check_grid(mon, 'from Grid', sf.Grid(g.copy()), v, s, 1e-300)
    s2 = s - 1 if s > 0 else s + 1 if s < 0 else 0
    mg.check_grid(mon, 'from Grid', sf.Grid(g.copy(), spin_weight=s2), v, s2, 1e-300); mon.eq('from Grid', g.s, s)
    if sh:
        i = int(rng.integers(sh[0]))
        mg.check_grid(mon, 'slice', g[i], v[i], s, 1e-300); mg.check_grid(mon, 'slice', g[::-1], v[::-1], s, 1e-300)
    # refusals
    k = 2 * abs(s) + 1
    if k > 1:
        for n in ((k - 1, k), (k, k - 1), (k - 1, k - 1)): mon.raises('too small refused', ValueError, sf.Grid, np.ones(sh + n, complex), spin_weight=int(s))
        mon.raises('too small refused', ValueError, sf.Grid, np.ones(sh + (k - 1, k + 4), complex), s)
    mon.raises('missing spin refused', ValueError, sf.Grid, v)
    mon.raises('too few axes refused', ValueError, sf.Grid, np.ones(5, complex), spin_weight=s); mon.raises('too few axes refused', ValueError, sf.Grid, 1j, spin_weight=0)
    mon.raises('bad arguments refused', ValueError, sf.Grid, v, s, 3)
    # independence
    op = idx % 5
    if op == 0: g.conjugate(inplace=True)
    elif op == 1: g.ndarray[...] = 3
    elif op == 2: g *= 2
    elif op == 3: np.negative(g, out=g)
    elif hasattr(g, '_metadata'): g._metadata['spin_weight'] = 0
    for c in made: mg.check_grid(mon, 'independence', c, v, s, 1e-300)
    mon.key('object', s, len(sh), nt, nph)


WORKLOADS = [W('binary', binary, 1200, 20000), W('factors', factors, 800, 16000), W('unary', unary, 800, 16000), W('objects', objects, 800, 12000)]
