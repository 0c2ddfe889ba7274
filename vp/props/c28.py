"""C28: computing with modes, with grids and at points, and differentiating, are one calculus."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one pair of functions (spin weights, ell_max's, leading shape, grid size); every operation is done on the modes, on the grids and at random rotors and the three results must be the same "
        "function; derivatives must obey the product rule and commute with conjugation as the mathematics says; distinct = (identity, s_f, s_g, ell_max_f, ell_max_g)")
ASSUMPTIONS = ["grids have at least 2 (ell_max_f + ell_max_g) + 1 points each way (documented as what avoids aliasing)", "ell_max up to 6 each (one in thirty: up to 14)",
               "agreement to 2e-13 .. 1e-12 times (1 + ell_max)^2 relative to the product of the norms (plus the factor of a derivative)"]
REQUIRED = ['sum', 'difference', 'scaled', 'quotient by scalar', 'conjugate', 'product: grid', 'product: modes', 'product: points', 'truncated product', 'power', 'parts', 'magnitude', 'quotient',
            'product rule', 'conjugated derivative', 'norm', 'inputs kept']
LEADS = [(), (3,), (), (2, 2), (1,), (), (2,), (4,)]
DER = dict(eth=lambda m: m.eth, ethbar=lambda m: m.ethbar, Lz=lambda m: m.Lz(), Lplus=lambda m: m.Lplus(), Lminus=lambda m: m.Lminus(), Rplus=lambda m: m.Rplus(), Rminus=lambda m: m.Rminus())
CONJ = dict(eth=('ethbar', 1), ethbar=('eth', 1), Lz=('Lz', -1), Lplus=('Lminus', -1), Lminus=('Lplus', -1), Rplus=('Rminus', -1), Rminus=('Rplus', -1))


def nd(x): return np.array(np.asarray(x.view(np.ndarray) if isinstance(x, np.ndarray) else x))


def case(mon, rng, idx, tier):
    lead = LEADS[idx % 8]
    top = 14 if idx % 30 == 7 and len(lead) < 2 else 6
    s1, s2 = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
    if rng.random() < .25: s1 = 0
    L1, L2 = (int(rng.integers(max(1, abs(s)), top + 1)) for s in (s1, s2))
    if rng.random() < .2: L1 = max(1, abs(s1))
    shg = lead if rng.random() < .7 else (lead[:-1] + (1,) if lead and rng.random() < .5 else ())
    w1 = mg.weights(rng, lead, s1, L1); w2 = mg.weights(rng, shg, s2, L2)
    w1 = w1 / max(mg.scale(w1), 1e-290); w2 = w2 / max(mg.scale(w2), 1e-290)
    f, g = sf.Modes(w1.copy(), spin_weight=s1), sf.Modes(w2.copy(), spin_weight=s2)
    L = L1 + L2
    nt = 2 * L + 1 + int(rng.integers(0, 4)); npn = nt if rng.random() < .6 else 2 * L + 1 + int(rng.integers(0, 5))
    if max(abs(s1), abs(s2), abs(s1 + s2)) * 2 + 1 > min(nt, npn): nt = npn = 2 * max(abs(s1), abs(s2), abs(s1 + s2)) + 1
    mon.ctx.update(s_f=s1, s_g=s2, ell_max_f=L1, ell_max_g=L2, shape_f=lead, shape_g=shg, n=(nt, npn))
    F, G = f.grid(nt, npn), g.grid(nt, npn)
    R = gens.q(mg.test_rotors(rng, 3))
    tol = 2e-13 * (1 + L) ** 2

    def same_function(kind, m, grid, s, ell_max, t=tol, modes=True):
        """Modes m and Grid grid are the same function"""
        mon.eq(kind, (type(m), type(grid), m.s, grid.s, m.ell_max), (sf.Modes, sf.Grid, s, s, ell_max))
        mon.close(kind, nd(m.grid(nt, npn)), nd(grid), t)
        if modes:
            b = grid.modes(ell_max)
            mon.eq(kind, (type(b), b.s, b.ell_max), (sf.Modes, s, ell_max)); mon.close(kind, nd(b), nd(m), t)
        mon.key(kind, s1, s2, L1, L2)

    # linear operations
    h = sf.Modes(mg.weights(rng, lead, s1, L2 if L2 >= abs(s1) else L1), spin_weight=s1); h = h / max(mg.scale(nd(h)), 1e-290); H = h.grid(nt, npn); Lm = max(L1, h.ell_max)
    same_function('sum', f + h, F + H, s1, Lm); same_function('difference', h - f, H - F, s1, Lm)
    c = complex(rng.normal(), rng.normal()) + 2; a = rng.normal(size=lead) + 2j
    for x in (c, a):
        same_function('scaled', f * x, F * x, s1, L1); same_function('scaled', x * f, x * F, s1, L1); same_function('quotient by scalar', f / x, F / x, s1, L1)
    same_function('conjugate', f.conjugate(), F.conjugate(), -s1, L1); same_function('conjugate', f.bar, np.conjugate(F), -s1, L1); same_function('conjugate', -f, -F, s1, L1)
    # products
    p = f * g; P = F * G; s = s1 + s2
    same_function('product: grid', p, P, s, L)
    mon.close('product: modes', nd(P.modes(L)), nd(p), tol); mon.close('product: modes', nd(g * f), nd(p), tol)
    mon.close('product: points', nd(p.evaluate(R)), nd(f.evaluate(R)) * nd(g.evaluate(R)), tol) if L <= 32 else None
    mon.close('product: points', nd((f + h).evaluate(R)), nd(f.evaluate(R)) + nd(h.evaluate(R)), tol)
    k = int(rng.integers(0, L + 1))
    t = f.multiply(g, lambda _: k); tm = P.modes(k)
    mon.eq('truncated product', (t.s, t.ell_max, tm.s, tm.ell_max), (s, k, s, k)); mon.close('truncated product', nd(t), nd(tm), tol); mon.same('truncated product', nd(p.truncate_ell(k)), nd(p)[..., :(k + 1) ** 2])
    if 2 * (2 * L1) + 1 <= 61:
        n2 = max(4 * L1, 4 * abs(s1)) + 1; q = f.grid(n2, n2)
        for Q in (q ** 2, np.square(q), q * q): mon.eq('power', Q.s, 2 * s1); mon.close('power', nd(Q.modes(2 * L1)), nd(f * f), 1e-12 * (1 + 2 * L1) ** 2)
        A = np.abs(q); ff = f * f.bar
        mon.eq('magnitude', (A.s, ff.s), (0, 0)); mon.close('magnitude', nd(A * A).astype(complex), nd(ff.grid(n2, n2)), 1e-12 * (1 + 2 * L1) ** 2)
        mon.close('norm', nd(ff)[..., 0] * np.sqrt(4 * np.pi), nd(f.norm()).astype(complex) ** 2, 1e-12 * (1 + L1) ** 2)
        if s1 == 0: mon.close('parts', nd(ff), nd(f.real * f.real + f.imag * f.imag), 1e-12 * (1 + 2 * L1) ** 2)
    if s1 == 0:
        mon.close('parts', nd(f.real.grid(nt, npn)), nd(F.real).astype(complex), tol); mon.close('parts', nd(f.imag.grid(nt, npn)), nd(F.imag).astype(complex), tol)
        mon.close('parts', nd(f.real + f.imag * 1j), nd(f), tol)
        e = sf.Modes(0.2 * w1, spin_weight=0); e.view(np.ndarray)[..., 0] += 40.0; E = e.grid(nt, npn)           # nowhere zero
        D = (E * G) / E
        mon.eq('quotient', (D.s, type(D)), (s2, sf.Grid)); mon.close('quotient', nd(D.modes(L2)), np.broadcast_to(nd(g), nd(D).shape[:-2] + g.shape[-1:]), tol)
    # derivatives: product rule, and what conjugation does to them
    for name in rng.permutation(sorted(DER))[:4]:
        d = DER[name]; mon.ctx.update(derivative=str(name))
        left, right = d(p), d(f) * g + f * d(g)
        mon.eq('product rule', (left.s, left.ell_max), (right.s, right.ell_max)); mon.close('product rule', nd(left), nd(right), tol * (2 + L))
        o, sign = CONJ[str(name)]
        x, y = d(f).conjugate(), DER[o](f.conjugate())
        mon.eq('conjugated derivative', (x.s, x.ell_max), (y.s, y.ell_max)); mon.close('conjugated derivative', nd(x), sign * nd(y), 1e-13 * (2 + L1))
        mon.key('derivative', str(name), s1, s2, L1, L2)
    mon.same('inputs kept', nd(f), w1); mon.same('inputs kept', nd(g), w2); mon.eq('inputs kept', (f.s, f.ell_max, g.s, g.ell_max, F.s, G.s), (s1, L1, s2, L2, s1, s2))
    mon.sample(s_f=s1, s_g=s2, ell_max_f=L1, ell_max_g=L2, shapes=(lead, shg), n=(nt, npn))


WORKLOADS = [W('calculus', case, 480, 9000)]
