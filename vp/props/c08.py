"""C08: Wigner3jCalculator families and histories of calls on shared calculators."""
import numpy as np
import spherical_functions as sf
from .. import ref
from ..core import W
from .c07 import tol

RULE = ("case = a history of calculate() calls on two or three live calculators, with overwritten results in between; each result is compared entry by entry "
        "with exact values; distinct = (family size class, m pattern, previous call bigger/smaller)")
ASSUMPTIONS = ["exact values from integer Racah sums; j<=150, some up to 600; arguments within the size the calculator was created for"]
REQUIRED = ['family', 'zero outside', 'normalised', 'independent of size', 'repeat after history', 'family enumerated', 'family over many magnitudes', 'orthogonality']


def famref(j2, j3, m2, m3, n):
    w = np.zeros(n)
    if abs(m2) <= j2 and abs(m3) <= j3:
        for j1 in range(max(abs(j2 - j3), abs(m2 + m3)), j2 + j3 + 1): w[j1] = ref.w3j(j1, j2, j3, -m2 - m3, m2, m3)
    return w


def check_family(mon, f, j2, j3, m2, m3, kind='family', sub=None, rng=None):
    mon.ok('long enough', len(f) >= j2 + j3 + 1, length=len(f))
    lo, hi = max(abs(j2 - j3), abs(m2 + m3)), j2 + j3
    valid = abs(m2) <= j2 and abs(m3) <= j3 and lo <= hi
    if valid:
        js = np.arange(lo, hi + 1)
        if sub is not None and len(js) > sub: js = np.unique(np.concatenate([[lo, lo + 1, hi, hi - 1], rng.choice(js, sub - 4)]))
        want = np.array([ref.w3j(int(j1), j2, j3, -m2 - m3, m2, m3) for j1 in js])
        mon.close(kind, f[js], want, tol(0, j2, j3))
        mon.close('normalised', np.sum((2 * np.arange(lo, hi + 1) + 1) * f[lo:hi + 1] ** 2), 1.0, 1e-11)
        mask = np.ones(len(f), bool); mask[lo:hi + 1] = False
    else:
        mask = np.ones(len(f), bool)
    mon.ok('zero outside', not np.any(f[mask]), nonzero=np.flatnonzero(mask & (f != 0)), f=f)


def pick(rng, a, b):
    r = lambda lo, hi: int(rng.integers(lo, hi + 1))
    j2, j3 = r(0, a), r(0, b)
    if rng.random() < .15: j2 = a
    if rng.random() < .15: j3 = b
    if rng.random() < .15: j2 = j3 = min(a, b, r(0, 8))
    m2, m3 = r(-j2, j2), r(-j3, j3)
    k = rng.random()
    if k < .1: m2 = m3 = 0
    elif k < .25: m2 = int(rng.choice([-j2, j2]))
    elif k < .35: m3 = int(rng.choice([-j3, j3]))
    elif k < .45: m3 = max(-j3, min(j3, -m2))
    elif k < .55: m2 = r(-j2 - 3, j2 + 3); m3 = r(-j3 - 3, j3 + 3)
    return j2, j3, m2, m3


def history(mon, rng, idx, tier):
    J = [3, 8, 15, 30, 60, 150][idx % 6]
    if idx % 60 == 5: J = int(rng.integers(150, 601))
    sizes = [(int(rng.integers(0, J + 1)), int(rng.integers(0, J + 1))) for _ in range(3)]
    calcs = [sf.Wigner3jCalculator(*s) for s in sizes]
    trace = []
    memo = {}
    prev = 0
    for step in range(int(rng.integers(4, 12))):
        c = int(rng.integers(3))
        a = pick(rng, *sizes[c]) if not trace or rng.random() < .75 else trace[int(rng.integers(len(trace)))][1]
        if a[0] > sizes[c][0] or a[1] > sizes[c][1]: a = pick(rng, *sizes[c])
        trace.append((sizes[c], a))
        mon.ctx.update(calculators=sizes, history=trace)
        f = calcs[c].calculate(*a)
        g = np.array(f)
        check_family(mon, g, *a, sub=12 if J > 30 else None, rng=rng)
        if a in memo:
            n = min(len(g), len(memo[a]))
            mon.close('repeat after history', g[:n], memo[a][:n], 1e-15)
        memo[a] = g
        if rng.random() < .5: f[:] = rng.choice([np.nan, 1e300, -1.0, 7.25])     # the caller may overwrite what it was given
        mon.key(J, 'grow' if sum(a[:2]) > prev else 'shrink', tuple(int(np.sign(x)) for x in a[2:]), abs(a[2]) > a[0], abs(a[3]) > a[1], a[0] == a[1])
        prev = sum(a[:2])
    # a calculator just big enough gives the same
    a = trace[-1][1]
    h = np.array(sf.Wigner3jCalculator(a[0], a[1]).calculate(*a))
    n = min(len(h), len(memo[a]))
    mon.close('independent of size', memo[a][:n], h[:n], 1e-15)
    mon.sample(calculators=sizes, last=a)


def families(mon, rng, idx, tier):
    """all m2, m3 of one (j2,j3), complete families, in random order on one calculator"""
    n = 9 if tier == 'quick' else 15
    j2, j3 = divmod(idx, n)
    calc = sf.Wigner3jCalculator(n + 1, n)
    todo = [(m2, m3) for m2 in range(-j2 - 1, j2 + 2) for m3 in range(-j3 - 1, j3 + 2)]
    rng.shuffle(todo)
    tab = {}
    for m2, m3 in todo:
        mon.ctx.update(j2=j2, j3=j3, m2=int(m2), m3=int(m3))
        f = calc.calculate(j2, j3, int(m2), int(m3))
        check_family(mon, np.array(f), j2, j3, int(m2), int(m3), 'family enumerated')
        tab[int(m2), int(m3)] = np.array(f)
    # sum over m2 (fixed m1) of w(j1) w(j1') = delta/(2j1+1)
    for m1 in range(-j2 - j3, j2 + j3 + 1):
        rows = np.array([tab[m2, -m1 - m2] for m2 in range(-j2, j2 + 1) if abs(-m1 - m2) <= j3])
        lo, hi = max(abs(j2 - j3), abs(m1)), j2 + j3
        S = rows[:, lo:hi + 1].T @ rows[:, lo:hi + 1]
        mon.close('orthogonality', S, np.diag(1.0 / (2 * np.arange(lo, hi + 1) + 1)), 1e-12, m1=m1)
    mon.key('families', j2, j3)


def wide(mon, rng, idx, tier):
    """families whose values range over hundreds of orders of magnitude: long ranges of j1, m's near their extremes"""
    J = int(rng.integers(40, 601 if tier == 'quick' else 1001))
    calc = sf.Wigner3jCalculator(J, J)
    for rep in range(3):
        j2, j3 = int(rng.integers(1, J + 1)), int(rng.integers(1, J + 1))
        if rng.random() < .4: j2 = int(rng.integers(1, min(J, 60) + 1))
        m2, m3 = int(rng.choice([-1, 1])) * max(0, j2 - int(rng.integers(0, 4))), int(rng.integers(-j3, j3 + 1))
        if rng.random() < .4: m3 = int(rng.choice([-1, 1])) * max(0, j3 - int(rng.integers(0, 4)))
        if rng.random() < .3: j2, j3, m2, m3 = j3, j2, m3, m2
        mon.ctx.update(size=J, j2=j2, j3=j3, m2=m2, m3=m3)
        check_family(mon, np.array(calc.calculate(j2, j3, m2, m3)), j2, j3, m2, m3, 'family over many magnitudes', sub=30, rng=rng)
        mon.key('wide', J // 50, j2 // 50, j3 // 50, j2 - abs(m2), j3 - abs(m3) if j3 - abs(m3) < 4 else 9, m2 * m3 > 0)
    mon.sample(size=J, family=(j2, j3, m2, m3))


WORKLOADS = [W('history', history, 5000, 90000), W('wide', wide, 500, 10000), W('families', families, 81, 225)]
