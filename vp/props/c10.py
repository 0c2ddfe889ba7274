"""C10: coefficient functions, enumerated completely over their supported ranges against exact integers."""
import math
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = "every argument of the finite supported range is evaluated and compared with exact integer arithmetic; distinct = arguments"
ASSUMPTIONS = ["supported ranges: n<=170 (factorial), n<=64 (binomial), 2 ell<=64 (ladder, Wigner coefficients)"]
REQUIRED = ['factorial', 'binomial', 'ladder', 'Wigner_coefficient', 'rounded indices']


def rel(mon, kind, got, want, r, **info):
    mon.close(kind, got, want, r * max(abs(want), 1e-300), **info)


def fact(mon, rng, idx, tier):
    for n in range(171):
        mon.ctx.update(n=n)
        rel(mon, 'factorial', sf.factorial(n), float(math.factorial(n)), 1e-15); mon.key('factorial', n)


def binom(mon, rng, idx, tier):
    n = idx
    for k in range(n + 1):
        mon.ctx.update(n=n, k=k)
        rel(mon, 'binomial', sf.binomial_coefficient(n, k), float(math.comb(n, k)), 2e-15); mon.key('binomial', n, k)


def ladder(mon, rng, idx, tier):
    t = idx
    for tm in range(-t, t + 1, 2):
        mon.ctx.update(ell=t / 2, m=tm / 2)
        want = ref.sqrt_frac(t * (t + 2) - tm * (tm + 2), 4)
        rel(mon, 'ladder', sf.ladder_operator_coefficient(t / 2, tm / 2), want, 2e-15)
        if t % 2 == 0: rel(mon, 'ladder', sf.ladder_operator_coefficient(t // 2, tm // 2), want, 2e-15)
        a, b = gens.nudge(rng, t / 2), gens.nudge(rng, tm / 2)
        rel(mon, 'rounded indices', sf.ladder_operator_coefficient(a, b), want, 2e-15, given=(a, b))
        mon.key('ladder', t, tm)


def wig(mon, rng, idx, tier):
    t = idx
    F = math.factorial
    for a in range(-t, t + 1, 2):
        for b in range(-t, t + 1, 2):
            mon.ctx.update(ell=t / 2, mp=a / 2, m=b / 2)
            lp, lm, jp, jm = (t + b) // 2, (t - b) // 2, (t + a) // 2, (t - a) // 2
            rho = max(0, (a - b) // 2)
            c = math.comb(jp, rho) * math.comb(jm, lm - rho)
            want = ref.sqrt_frac(F(lp) * F(lm) * c * c, F(jp) * F(jm))
            rel(mon, 'Wigner_coefficient', sf.Wigner_coefficient(t / 2, a / 2, b / 2), want, 4e-15)
            x, y, z = (gens.nudge(rng, v / 2) for v in (t, a, b))
            rel(mon, 'rounded indices', sf.Wigner_coefficient(x, y, z), want, 4e-15, given=(x, y, z))
            mon.key('W', t, a, b)
    mon.sample(twoell=t, n=(t + 1) ** 2, last=want)


WORKLOADS = [W('factorial', fact, 1, 1), W('binomial', binom, 65, 65), W('ladder', ladder, 65, 65), W('wigner', wig, 65, 65)]
