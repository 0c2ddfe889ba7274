"""C07: 3-j symbols and Clebsch-Gordan coefficients against exact integer arithmetic."""
import itertools, math
import numpy as np
import spherical_functions as sf
from .. import ref
from ..core import W

RULE = ("case = one argument tuple family (random, stretched, extremal m, m=0, equal j, one small j, zero j, violated selection rule) with all its "
        "column permutations and m-flips, plus complete enumeration of small j; distinct = (category, sorted j's, which m's are extremal/zero)")
ASSUMPTIONS = ["exact values from integer Racah sums; tolerance 5e-14*(1+(j1+j2+j3)/30)", "integers, j<=150, some up to 600 (thorough: 1000)"]
REQUIRED = ['3j huge', '3j value', 'selection rule', 'column permutation', 'm flip', 'CG value', 'CG zero', '3j enumerated', 'CG enumerated']
CATS = ['random', 'random', 'stretched', 'extremal', 'zero m', 'equal', 'one small', 'zero j', 'bottom', 'm1=0', 'opposite m', 'large']


def tol(j1, j2, j3):
    return 5e-14 * (1 + (abs(j1) + abs(j2) + abs(j3)) / 30)


def args(rng, cat, J, top=150):
    r = lambda a, b: int(rng.integers(a, b + 1))
    j2, j3 = r(0, J), r(0, J)
    if cat == 'equal': j3 = j2
    if cat == 'one small': j3 = r(0, 3)
    if cat == 'zero j': j3 = 0
    if cat == 'large': j2, j3 = r(J // 2, J), r(J // 2, J)
    m2, m3 = r(-j2, j2), r(-j3, j3)
    if cat == 'extremal':
        m2 = int(rng.choice([-j2, j2]))
        if rng.random() < .5: m3 = int(rng.choice([-j3, j3]))
    if cat == 'zero m': m2 = m3 = 0
    if cat in ('m1=0', 'opposite m'): m3 = -m2 if abs(m2) <= j3 else m3
    if cat == 'equal' and rng.random() < .4: m3 = m2
    m1 = -m2 - m3
    lo, hi = max(abs(j2 - j3), abs(m1)), j2 + j3
    j1 = r(lo, min(hi, top)) if lo <= min(hi, top) else lo
    if cat == 'stretched': j1 = min(hi, top)
    if cat == 'bottom': j1 = lo
    v = [(j1, m1), (j2, m2), (j3, m3)]
    p = rng.permutation(3)
    v = [v[i] for i in p]
    return tuple(int(a) for a, _ in v), tuple(int(b) for _, b in v)


def edge(rng, J):
    """m's at or near their extremes, anywhere in the family: values range over hundreds of orders of magnitude"""
    j2, j3 = int(rng.integers(1, J + 1)), int(rng.integers(1, J + 1))
    if rng.random() < .4: j2 = int(rng.integers(1, 61))
    m2 = int(rng.choice([-1, 1])) * max(0, j2 - int(rng.integers(0, 4))); m3 = int(rng.integers(-j3, j3 + 1))
    if rng.random() < .4: m3 = int(rng.choice([-1, 1])) * max(0, j3 - int(rng.integers(0, 4)))
    lo, hi = max(abs(j2 - j3), abs(m2 + m3)), j2 + j3
    j1 = int(rng.integers(lo, hi + 1)); k = rng.random()
    if k < .4: j1 = min(hi, lo + int(rng.integers(0, 12)))
    elif k < .6: j1 = max(lo, hi - int(rng.integers(0, 12)))
    v = [(j1, -m2 - m3), (j2, m2), (j3, m3)]; v = [v[i] for i in rng.permutation(3)]
    return tuple(a for a, _ in v), tuple(b for _, b in v)


def key(mon, cat, j, m):
    mon.key(cat, tuple(sorted(j)), tuple(0 if b == 0 else 1 if abs(b) == a else 2 for a, b in zip(j, m)))


def values(mon, rng, idx, tier):
    for rep in range(4):
        J = [4, 10, 20, 40, 80, 150][idx % 6]
        cat = CATS[(idx // 6 + rep) % len(CATS)]
        j, m = args(rng, cat, J)
        mon.ctx.update(j=j, m=m, category=cat)
        want = ref.w3j(*j, *m)
        t = tol(*j)
        mon.close('3j value', sf.Wigner3j(*j, *m), want, t)
        sg = -1.0 if sum(j) % 2 else 1.0
        for p in itertools.permutations(range(3)):
            even = p in ((0, 1, 2), (1, 2, 0), (2, 0, 1))
            a, b = [j[i] for i in p], [m[i] for i in p]
            mon.close('column permutation', sf.Wigner3j(*a, *b), want * (1 if even else sg), t, perm=p)
        mon.close('m flip', sf.Wigner3j(*j, *(-x for x in m)), sg * want, t)
        c = sf.clebsch_gordan(j[0], m[0], j[1], m[1], j[2], -m[2])
        if sum(j) <= 120: mon.close('CG value', c, ref.cg(j[0], m[0], j[1], m[1], j[2], -m[2]), t * math.sqrt(2 * j[2] + 1))
        else: mon.close('CG value', c, (-1) ** ((j[0] - j[1] - m[2]) % 2) * math.sqrt(2 * j[2] + 1) * want, t * math.sqrt(2 * j[2] + 1))
        key(mon, cat, j, m); mon.region(cat)
    mon.sample(j=j, m=m, value=want)


def selection(mon, rng, idx, tier):
    for rep in range(8):
        J = [3, 10, 40, 150][idx % 4]
        j, m = args(rng, 'random', J)
        j, m = list(j), list(m)
        k = int(rng.integers(6)); i = int(rng.integers(3))
        if k == 0: m[i] += int(rng.choice([-1, 1, 2, -3]))
        elif k == 1:      # |m|>j, sum still zero
            m[i] = int(rng.choice([-1, 1])) * (j[i] + int(rng.integers(1, 4))); m[(i + 1) % 3] = -m[i] - m[(i + 2) % 3]
        elif k == 2:      # triangle violated, m's allowed
            j[i] = j[(i + 1) % 3] + j[(i + 2) % 3] + int(rng.integers(1, 4))
        elif k == 3: j[i] = -int(rng.integers(1, 5))
        elif k == 4: j = [int(x) for x in rng.integers(0, J + 1, 3)]; m = [int(x) for x in rng.integers(-J, J + 1, 3)]
        elif k == 5: m = [0, 0, 0]; j = [int(x) for x in rng.integers(0, J + 1, 3)]; j[0] += 1 - sum(j) % 2   # m=0, odd sum
        mon.ctx.update(j=tuple(j), m=tuple(m), violation=k)
        want = ref.w3j(*j, *m)
        got = sf.Wigner3j(*j, *m)
        allowed = sum(m) == 0 and min(j) >= 0 and all(abs(b) <= a for a, b in zip(j, m)) and 2 * max(j) <= sum(j)
        if not allowed:
            mon.ok('selection rule', got == 0.0, got=got)
            c = sf.clebsch_gordan(j[0], m[0], j[1], m[1], j[2], -m[2]) if j[2] >= 0 else 0.0
            mon.ok('CG zero', c == 0.0, got=c)
        else:
            mon.close('3j value', got, want, tol(*j))
        mon.key('violation', k, tuple(sorted(j)), tuple(m))


def huge(mon, rng, idx, tier):
    J = int(rng.integers(150, 601 if tier == 'quick' else 1001)); cat = CATS[idx % len(CATS)]
    j, m = args(rng, cat, J, 2 * J)
    if idx % 3 == 0: j, m = edge(rng, J)
    mon.ctx.update(j=j, m=m, category=cat)
    want = ref.w3j(*j, *m); t = tol(*j); sg = -1.0 if sum(j) % 2 else 1.0
    mon.close('3j huge', sf.Wigner3j(*j, *m), want, t)
    mon.close('3j huge', sf.Wigner3j(*j[::-1], *m[::-1]), sg * want, t)
    mon.close('CG value', sf.clebsch_gordan(j[0], m[0], j[1], m[1], j[2], -m[2]), (-1) ** ((j[0] - j[1] - m[2]) % 2) * math.sqrt(2 * j[2] + 1) * want, t * math.sqrt(2 * j[2] + 1))
    cat = 'edge' if idx % 3 == 0 else cat
    key(mon, cat, j, m); mon.region('huge ' + cat)


def enumerate_small(mon, rng, idx, tier):
    """all m2, m3 and all j1 for one (j2, j3)"""
    n = 11 if tier == 'quick' else 17
    j2, j3 = divmod(idx, n)
    for m2 in range(-j2 - 1, j2 + 2):
        for m3 in range(-j3 - 1, j3 + 2):
            if tier == 'quick' and j2 + j3 > 10 and (m2 * 7 + m3 * 3 + idx) % 4: continue
            for j1 in range(max(0, abs(j2 - j3) - 1), j2 + j3 + 2):
                mon.ctx.update(j=(j1, j2, j3), m=(-m2 - m3, m2, m3))
                want = ref.w3j(j1, j2, j3, -m2 - m3, m2, m3)
                mon.close('3j enumerated', sf.Wigner3j(j1, j2, j3, -m2 - m3, m2, m3), want, tol(j1, j2, j3))
                want = ref.cg(j2, m2, j3, m3, j1, m2 + m3)
                mon.close('CG enumerated', sf.clebsch_gordan(j2, m2, j3, m3, j1, m2 + m3), want, 10 * tol(j1, j2, j3))
    mon.key('enumerated', j2, j3)


WORKLOADS = [W('huge', huge, 1200, 20000), W('values', values, 15000, 300000), W('selection', selection, 4000, 60000), W('enumerate_small', enumerate_small, 121, 289)]
