"""C17: eth operators on plain arrays of mode weights."""
import math
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = "case = (s, ell_min, ell_max) with random weights, through all five operators; distinct = (s, ell_min, ell_max)"
ASSUMPTIONS = ["ell up to 40, |s| up to 12 (one in forty: 120 and 60); weights at ell<|s| are present in the input and must not survive where the result's ell is below its spin weight",
               "ethbar_inverse_NP is unspecified on modes that ethbar annihilates"]
REQUIRED = ['eth_NP', 'ethbar_NP', 'eth_GHP', 'ethbar_GHP', 'inverse of ethbar', 'ethbar of inverse', 'agrees with Modes', 'input kept', 'inverse factor']


def ops(mon, rng, idx, tier):
    s = int(rng.integers(-12, 13)) if rng.random() < .4 else int(rng.integers(-3, 4))
    a = int(rng.integers(0, 9)) if rng.random() < .7 else int(rng.integers(0, 30))
    b = a + int(rng.integers(0, 11))
    if idx % 40 == 3: s = int(rng.integers(-60, 61)); a = int(rng.integers(0, 80)); b = a + int(rng.integers(0, 40))
    w = gens.cplx(rng, ((b + 1) ** 2 - a * a,))
    if rng.random() < .5:     # a well-formed field: nothing below |s|
        w[:max(0, s * s - a * a)] = 0
    given = w.copy()
    mon.ctx.update(s=s, ell_min=a, ell_max=b)
    ell = np.concatenate([np.full(2 * l + 1, l) for l in range(a, b + 1)]).astype(float)
    good = ell >= abs(s)
    up = np.where(good & (ell >= abs(s + 1)), np.sqrt(np.maximum((ell - s) * (ell + s + 1), 0)), 0)
    dn = np.where(good & (ell >= abs(s - 1)), -np.sqrt(np.maximum((ell + s) * (ell - s + 1), 0)), 0)
    # where the input itself is meaningless (ell<|s|) but the result's ell is allowed, the factor is fixed by the formula (it may be zero only)
    def chk(kind, got, f, s2):
        t = 1e-14 * (np.abs(given * f) + 1e-290)
        sel = good | (ell < abs(s2))
        mon.ok(kind, got.shape == w.shape)
        mon.close(kind, got[sel], (given * f)[sel], t[sel])
    kw = [(s, a), ()][0]
    call = lambda fn: fn(w, s, a) if (a or rng.random() < .5) else fn(w, s)
    chk('eth_NP', call(sf.eth_NP), up, s + 1)
    chk('ethbar_NP', call(sf.ethbar_NP), dn, s - 1)
    chk('eth_GHP', call(sf.eth_GHP), up / math.sqrt(2), s + 1)
    chk('ethbar_GHP', call(sf.ethbar_GHP), dn / math.sqrt(2), s - 1)
    mon.same('input kept', w, given)
    # inverse, both ways
    e = sf.ethbar_NP(w, s, a); keep = e.copy()
    back = sf.ethbar_inverse_NP(e, s - 1, a)
    mon.same('input kept', e, keep)
    alive = dn != 0
    mon.close('inverse of ethbar', back[alive], given[alive], 1e-14 * (np.abs(given[alive]) + 1e-290))
    inv = sf.ethbar_inverse_NP(w, s, a)
    f2 = -np.sqrt(np.maximum((ell + s + 1) * (ell - s), 0)); al2 = good & (ell >= abs(s + 1)) & (f2 != 0)
    mon.close('inverse factor', inv[al2], given[al2] / f2[al2], 1e-14 * (np.abs(given[al2] / f2[al2]) + 1e-290))
    again = sf.ethbar_NP(inv, s + 1, a)
    mon.close('ethbar of inverse', again[al2], given[al2], 1e-14 * (np.abs(given[al2]) + 1e-290))
    mon.same('input kept', w, given)
    # the class
    m = sf.Modes(w.copy(), spin_weight=s, ell_min=a, ell_max=b)
    clean = given.copy(); clean[:max(0, s * s - a * a)] = 0
    for fn, r in ((sf.eth_NP, m.eth), (sf.ethbar_NP, m.ethbar)):
        mon.close('agrees with Modes', fn(clean, s, a), r.ndarray[a * a:], 1e-14 * (np.abs(clean) * (b + 20) + 1e-290))
    mon.key(s, a, b)
    mon.region('ell_min %s |s|' % ('<' if a < abs(s) else '=' if a == abs(s) else '>'))
    mon.sample(s=s, ell_min=a, ell_max=b)


def warmup(tier):
    w = np.ones(4, complex)
    for f in (sf.eth_NP, sf.ethbar_NP, sf.eth_GHP, sf.ethbar_GHP, sf.ethbar_inverse_NP): f(w, 0, 0); f(w, 0)


WORKLOADS = [W('ops', ops, 4000, 100000)]
