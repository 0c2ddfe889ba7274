"""C09: index functions, compared with the lists their docstrings define."""
import numpy as np
import spherical_functions as sf
from .. import ref
from ..core import W

RULE = ("case = one (ell_min, ell_max) enumerated completely, or one large size checked with exact integers, or one (n_theta, n_phi); "
        "distinct = (function group, ell_min, ell_max or size)")
ASSUMPTIONS = ["index formulas are exercised up to ell=2000 (LMpM) and 10^6 (LM)", "length 0 (an empty range) is not exercised as an impossible length"]
REQUIRED = ['LM_range', 'LM_index', 'LM_total_size', 'LM_deduce_ell_max', 'LM_deduce impossible', 'LMpM_range', 'LMpM_index', 'LMpM_total_size',
            'LMpM_range_half_integer', 'theta_phi', 'LMpM half-integer refused', 'LM_index large', 'LMpM_index large', 'LM_deduce large']
NLM = dict(quick=41, thorough=81); NLMP = dict(quick=15, thorough=25); NH = dict(quick=12, thorough=20)


def lm(mon, rng, idx, tier):
    b = idx % NLM[tier]
    for a in range(b + 1):
        mon.ctx.update(ell_min=a, ell_max=b)
        want = np.array(ref.LM(a, b))
        got = sf.LM_range(a, b)
        mon.same('LM_range', got, want)
        mon.eq('LM_total_size', int(sf.LM_total_size(a, b)), len(want))
        mon.eq('LM_deduce_ell_max', int(sf.LM_deduce_ell_max(len(want), a)), b)
        if a == 0: mon.eq('LM_deduce_ell_max', int(sf.LM_deduce_ell_max(len(want))), b)
        mon.same('LM_index', np.array([sf.LM_index(int(l), int(m), a) for l, m in want]), np.arange(len(want)))
        mon.key('LM', a, b)
    for _ in range(2):                       # long ranges
        c = int(rng.integers(41, 160)); a = int(rng.integers(0, c + 1))
        mon.ctx.update(ell_min=a, ell_max=c)
        want = np.array(ref.LM(a, c))
        mon.same('LM_range', sf.LM_range(a, c), want)
        mon.eq('LM_total_size', int(sf.LM_total_size(a, c)), len(want)); mon.eq('LM_deduce_ell_max', int(sf.LM_deduce_ell_max(len(want), a)), c)
    possible = {(l + 1) ** 2 - b * b for l in range(b, 200)}
    for size in range(1, 400):
        if size not in possible: mon.raises('LM_deduce impossible', ValueError, sf.LM_deduce_ell_max, size, b)
        else: mon.eq('LM_deduce_ell_max', (int(sf.LM_deduce_ell_max(size, b)) + 1) ** 2 - b * b, size)
    mon.sample(ell_max=b, ell_min='0..%d' % b)


def lm_large(mon, rng, idx, tier):
    for _ in range(20):
        l = int(10 ** rng.uniform(0, 6)); a = int(rng.integers(0, l + 1)) if rng.random() < .7 else 0
        m = int(rng.integers(-l, l + 1))
        mon.ctx.update(ell=l, m=m, ell_min=a)
        mon.eq('LM_index large', int(sf.LM_index(l, m, a)), l * l - a * a + l + m)
        size = (l + 1) ** 2 - a * a
        mon.eq('LM_total_size', int(sf.LM_total_size(a, l)), size)
        mon.eq('LM_deduce large', int(sf.LM_deduce_ell_max(size, a)), l)
        if l > 1:
            for d in (-1, 1): mon.raises('LM_deduce impossible', ValueError, sf.LM_deduce_ell_max, size + d, a)
        mon.key('LM large', l, a)
        l = int(10 ** rng.uniform(0, 3.3)); a = int(rng.integers(0, l + 1)) if rng.random() < .7 else 0
        mp, m = int(rng.integers(-l, l + 1)), int(rng.integers(-l, l + 1))
        mon.ctx.update(ell=l, mp=mp, m=m, ell_min=a)
        cum = lambda n: n * (4 * n * n - 1) // 3       # sum_{k<n} (2k+1)^2
        mon.eq('LMpM_index large', int(sf.LMpM_index(l, mp, m, a)), cum(l) - cum(a) + (2 * l + 1) * (l + mp) + l + m)
        mon.eq('LMpM_total_size', int(sf.LMpM_total_size(a, l)), cum(l + 1) - cum(a))
        mon.key('LMpM large', l, a)


def lmpm(mon, rng, idx, tier):
    b = idx % NLMP[tier]
    for a in range(b + 1):
        mon.ctx.update(ell_min=a, ell_max=b)
        want = np.array(ref.LMpM(a, b))
        mon.same('LMpM_range', sf.LMpM_range(a, b), want)
        mon.eq('LMpM_total_size', int(sf.LMpM_total_size(a, b)), len(want))
        mon.same('LMpM_index', np.array([sf.LMpM_index(int(l), int(mp), int(m), a) for l, mp, m in want]), np.arange(len(want)))
        mon.key('LMpM', a, b)
        mon.raises('LMpM half-integer refused', ValueError, sf.LMpM_range, a + 0.5, b + 1)
        mon.raises('LMpM half-integer refused', ValueError, sf.LMpM_range, a, b + 0.5)
    c = int(rng.integers(15, 41)); a = max(0, c - int(rng.integers(0, 8)))
    mon.ctx.update(ell_min=a, ell_max=c)
    want = np.array(ref.LMpM(a, c))
    mon.same('LMpM_range', sf.LMpM_range(a, c), want)
    mon.eq('LMpM_total_size', int(sf.LMpM_total_size(a, c)), len(want))
    for k in rng.integers(0, len(want), 50): mon.eq('LMpM_index', int(sf.LMpM_index(*(int(x) for x in want[k]), a)), int(k))
    tb = int(rng.integers(24, 71)); ta = max(0, tb - int(rng.integers(0, 6)))
    mon.ctx.update(ell_min=ta / 2, ell_max=tb / 2)
    want = np.array([(t / 2, mp / 2, m / 2) for t in range(ta, tb + 1) for mp in range(-t, t + 1, 2) for m in range(-t, t + 1, 2)])
    mon.same('LMpM_range_half_integer', sf.LMpM_range_half_integer(ta / 2, tb / 2), want)


def half(mon, rng, idx, tier):
    tb = idx % (2 * NH[tier])
    for ta in range(tb + 1):
        mon.ctx.update(ell_min=ta / 2, ell_max=tb / 2)
        want = np.array([(t / 2, mp / 2, m / 2) for t in range(ta, tb + 1) for mp in range(-t, t + 1, 2) for m in range(-t, t + 1, 2)])
        mon.same('LMpM_range_half_integer', sf.LMpM_range_half_integer(ta / 2, tb / 2), want)
        if ta % 2 == 0 and tb % 2 == 0: mon.same('LMpM_range_half_integer', sf.LMpM_range_half_integer(ta // 2, tb // 2), want)
        mon.key('half', ta, tb)


def tp(mon, rng, idx, tier):
    nt, nph = int(rng.integers(2, 40)), int(rng.integers(1, 40))
    if idx % 3: nph = 1 + (idx * 2 // 3) % 500; nt = 2 + idx % 5          # every n_phi in turn
    elif idx % 2: nt = 2 + (idx // 3) % 300; nph = 1 + idx % 5
    mon.ctx.update(n_theta=nt, n_phi=nph)
    g = sf.theta_phi(nt, nph)
    th = np.pi * np.arange(nt) / (nt - 1); ph = 2 * np.pi * np.arange(nph) / nph
    want = np.stack(np.broadcast_arrays(th[:, None], ph[None, :]), -1)
    mon.eq('theta_phi', g.shape, want.shape)
    mon.close('theta_phi', g, want, 5e-15)
    mon.ok('theta_phi', g[0, 0, 0] == 0.0 and abs(g[-1, 0, 0] - np.pi) < 1e-15 and g[0, 0, 1] == 0.0)
    mon.key('theta_phi', nt, nph)


WORKLOADS = [W('lm', lm, 41, 81), W('lm_large', lm_large, 1000, 20000), W('lmpm', lmpm, 15, 25), W('half', half, 24, 40), W('theta_phi', tp, 1500, 6000)]
