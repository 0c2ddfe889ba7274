"""C04: invalid or unsupported indices: ValueError, or exactly 0.0 when the switch is off; histories of switch settings."""
import numpy as np
import spherical_functions as sf
from .. import ref, gens
from ..core import W

RULE = ("case = a history of switch settings and requests mixing valid and invalid (ell,mp,m) in all calling forms; "
        "distinct = (kind of invalidity, calling form, switch position)")
ASSUMPTIONS = ["requests with indices that are neither integers nor half-integers are not exercised"]
REQUIRED = ['error', 'zero', 'valid beside invalid', 'switch restored', 'SWSH zero', 'SWSH unsupported', 'matrices unsupported',
            'grid unsupported', 'evaluate unsupported', 'array form error', 'array form zero']
KINDS = ['m>ell', 'mp>ell', 'both', 'ell<0', 'ell>32', 'm parity', 'mp parity', 'both parity', 'just above', 'ell=32.5']


def bad(rng, kind):
    """twice (ell, mp, m), invalid in the given way"""
    t = int(rng.integers(0, 20)) if rng.random() < .8 else int(rng.integers(0, 65))
    a, b = -t + 2 * int(rng.integers(0, t + 1)), -t + 2 * int(rng.integers(0, t + 1))
    sg = lambda: int(rng.choice([-1, 1]))
    big = lambda: sg() * (t + 2 * int(rng.integers(1, 6)))
    if kind == 'm>ell': b = big()
    elif kind == 'mp>ell': a = big()
    elif kind == 'both': a, b = big(), big()
    elif kind == 'just above': (a, b) = [(sg() * (t + 2), b), (a, sg() * (t + 2)), (sg() * (t + 1), b), (a, sg() * (t + 1))][rng.integers(4)]
    elif kind == 'ell<0': t = -int(rng.integers(1, 8)); a, b = t % 2 + 2 * int(rng.integers(-2, 3)), t % 2 + 2 * int(rng.integers(-2, 3)); 
    elif kind == 'ell>32': t = 65 + int(rng.integers(0, 40)); a, b = -t + 2 * int(rng.integers(0, t + 1)), -t + 2 * int(rng.integers(0, t + 1))
    elif kind == 'ell=32.5': t = 65; a, b = -t + 2 * int(rng.integers(0, t + 1)), -t + 2 * int(rng.integers(0, t + 1))
    else:
        t = max(t, 1)
        a, b = -t + 2 * int(rng.integers(0, t + 1)), -t + 2 * int(rng.integers(0, t + 1))
        inside = lambda: -t + 1 + 2 * int(rng.integers(0, t))
        if kind == 'm parity': b = inside()
        elif kind == 'mp parity': a = inside()
        else: a, b = inside(), inside()
    return t, a, b


def good(rng):
    t = int(rng.integers(0, 20)) if rng.random() < .8 else int(rng.integers(0, 65))
    return t, -t + 2 * int(rng.integers(0, t + 1)), -t + 2 * int(rng.integers(0, t + 1))


def val(q, x):
    t, a, b = x
    return ref.D_matrix(t, q)[..., (a + t) // 2, (b + t) // 2]


def history(mon, rng, idx, tier):
    try:
        sf.error_on_bad_indices = True
        trace = []
        for step in range(int(rng.integers(4, 10))):
            on = bool(rng.random() < .5)
            sf.error_on_bad_indices = on
            q, _ = gens.rotor(rng); R = gens.q1(q); Ra, Rb = complex(R.a), complex(R.b)
            kind = KINDS[(idx + step) % len(KINDS)]
            x = bad(rng, kind)
            e = tuple(v / 2 for v in x)
            if all(v % 2 == 0 for v in x) and rng.random() < .5: e = tuple(v // 2 for v in x)
            trace.append((on, e))
            mon.ctx.update(history=trace, R=q.tolist())
            lst = [good(rng) for _ in range(int(rng.integers(0, 5)))]
            pos = int(rng.integers(0, len(lst) + 1))
            lst.insert(pos, x)
            if rng.random() < .3: lst.append(bad(rng, KINDS[rng.integers(len(KINDS))]))
            isgood = [abs(a) <= t and abs(b) <= t and t <= 64 and (t - a) % 2 == 0 and (t - b) % 2 == 0 for t, a, b in lst]
            arr = np.array(lst) / 2
            al, be, ga = rng.uniform(0, 3, 3)
            Q = gens.rotors(rng, gens.shape(rng, 2, 3) or (2,)); A = gens.q(Q)
            D = sf.Wigner_D_element
            if on:
                for form, args in (('R', (R,) + e), ('Ra,Rb', (Ra, Rb) + e), ('euler', (al, be, ga) + e), ('R,indices', (R, arr)),
                                   ('Ra,Rb,indices', (Ra, Rb, arr)), ('euler,indices', (al, be, ga, arr)), ('R,[one]', (R, [list(e)]))):
                    mon.raises('error', ValueError, D, *args); mon.key(kind, form, on)
                mon.raises('array form error', ValueError, D, A, *e); mon.key(kind, 'Rs', on)
                if kind.startswith('ell>') or kind.startswith('ell='):
                    mon.raises('error', ValueError, D, R, [1, e[0]]); mon.raises('error', ValueError, D, R, e[0])
                    mon.raises('error', ValueError, D, Ra, Rb, [e[0]])
                g = good(rng)
                mon.close('switch restored', D(R, *(v / 2 for v in g)), val(q, g), ref.tol_D(g[0]))
            else:
                for form, args in (('R', (R,) + e), ('Ra,Rb', (Ra, Rb) + e), ('euler', (al, be, ga) + e)):
                    r = D(*args)
                    mon.ok('zero', np.ndim(r) == 0 and r == 0.0, form=form, got=r); mon.key(kind, form, on)
                r = D(A, *e)
                mon.ok('array form zero', np.shape(r) == A.shape and not np.any(r), got=r); mon.key(kind, 'Rs', on)
                want = np.array([val(q, y) if ok else 0.0 for y, ok in zip(lst, isgood)])
                tol = np.array([ref.tol_D(y[0]) if ok else 1e-300 for y, ok in zip(lst, isgood)])
                for form, args in (('R,indices', (R, arr)), ('Ra,Rb,indices', (Ra, Rb, arr)), ('R,list', (R, arr.tolist()))):
                    mon.close('valid beside invalid', D(*args), want, tol, form=form); mon.key(kind, form, on)
                if kind.startswith('ell>'):
                    l = 1 + int(rng.integers(0, 3))
                    r = D(R, [l, e[0]])
                    n = (2 * l + 1) ** 2
                    mon.close('valid beside invalid', r[:n], ref.D_matrix(2 * l, q).ravel(), ref.tol_D(2 * l))
                    mon.ok('zero', not np.any(r[n:]) and len(r) == n + (x[0] + 1) ** 2)
        mon.sample(history=trace)
    finally:
        sf.error_on_bad_indices = True


def grid_of_indices(mon, rng, idx, tier):
    """all triples in a box around the valid set, one ell at a time, both switch positions"""
    two = idx % 18
    q, _ = gens.rotor(rng); R = gens.q1(q)
    box = [(two, a, b) for a in range(-two - 3, two + 4) for b in range(-two - 3, two + 4)]
    okay = np.array([abs(a) <= t and abs(b) <= t and (t - a) % 2 == 0 and (t - b) % 2 == 0 for t, a, b in box])
    M = ref.D_matrix(two, q)
    want = np.array([M[(a + two) // 2, (b + two) // 2] if o else 0 for (t, a, b), o in zip(box, okay)])
    mon.ctx.update(R=q.tolist(), twoell=two)
    try:
        sf.error_on_bad_indices = False
        mon.close('valid beside invalid', sf.Wigner_D_element(R, np.array(box) / 2), want, np.where(okay, ref.tol_D(two), 1e-300))
        sf.error_on_bad_indices = True
        for x, o in zip(box, okay):
            if not o: mon.raises('error', ValueError, sf.Wigner_D_element, R, *(v / 2 for v in x))
    finally:
        sf.error_on_bad_indices = True
    mon.key('box', two, gens.region(q))


def swsh(mon, rng, idx, tier):
    q, _ = gens.rotor(rng); R = gens.q1(q)
    s = int(rng.integers(-12, 13)) if rng.random() < .8 else int(rng.choice([-40, -33, 33, 40]))
    ind = []
    for _ in range(8):
        l = int(rng.integers(0, 33)); m = int(rng.integers(-l - 5, l + 6))
        if rng.random() < .4: l = max(0, abs(s) - int(rng.integers(0, 3))); l = min(l, 32); m = int(rng.integers(-l - 2, l + 3))
        ind.append((l, m))
    if rng.random() < .2: ind.append((-int(rng.integers(1, 5)), int(rng.integers(-3, 4))))
    okay = np.array([abs(m) <= l and abs(s) <= l for l, m in ind])
    mon.ctx.update(R=q.tolist(), s=s, indices=ind)
    want = np.array([ref.sYlm(q, s, l)[m + l] if o else 0.0 for (l, m), o in zip(ind, okay)])
    tol = np.array([ref.tol_Y(l) if o else 1e-300 for (l, m), o in zip(ind, okay)])
    mon.close('SWSH zero', sf.SWSH(R, s, np.array(ind)), want, tol)
    Q = gens.rotors(rng, (3,)); A = gens.q(Q)
    for (l, m), o in zip(ind, okay):
        if not o:
            mon.ok('SWSH zero', not np.any(sf.SWSH(A, s, (l, m))), pair=(l, m)); mon.key('swsh', l < abs(s), abs(m) > l)
    # unsupported ell
    big = 33 + int(rng.integers(0, 60)); mm = int(rng.integers(-big, big + 1))
    mon.raises('SWSH unsupported', ValueError, sf.SWSH, R, s, np.array(ind[:int(rng.integers(0, 4))] + [(big, mm)]))
    mon.raises('SWSH unsupported', ValueError, sf.SWSH, R, s, np.array([(33, 0)]))
    mon.raises('SWSH unsupported', ValueError, sf.SWSH, A, s, (big, mm))
    mon.raises('SWSH unsupported', ValueError, sf.SWSH, A, s, [33, int(rng.integers(-33, 34))])
    mon.raises('grid unsupported', ValueError, sf.SWSH_grid, A, s, big)
    mon.raises('grid unsupported', ValueError, sf.SWSH_grid, A, s, 33)
    a = int(rng.integers(0, 35))
    mon.raises('matrices unsupported', ValueError, sf.Wigner_D_matrices, R, a, max(a, 33))
    mon.raises('matrices unsupported', ValueError, sf.Wigner_D_matrices, R, a, max(a, big))
    if idx % 4 == 0:
        L = 33 + int(rng.integers(0, 4)); sw = int(rng.integers(-2, 3))
        M = sf.Modes(rng.normal(size=(L + 1) ** 2) + 0j, spin_weight=sw)
        mon.raises('evaluate unsupported', ValueError, M.evaluate, A)


WORKLOADS = [W('history', history, 700, 15000), W('grid_of_indices', grid_of_indices, 108, 1800), W('swsh', swsh, 500, 10000)]
