"""C11: construction, copies, slices, truncation and independence of Modes objects."""
import copy, pickle
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = ("case = one valid input in one spelling, or one malformed input, or a history of copies/slices/truncations/in-place changes with shadow copies; "
        "distinct = (spelling or operation, s, ell_min, ell_max, ndim)")
ASSUMPTIONS = ["input arrays are complex, or float pairs viewed as complex; the constructor may share memory with its input (documented view semantics)"]
REQUIRED = ['stored weights', 'constructor metadata', 'index', 'index refused', 'bad size refused', 'missing spin refused', 'copy', 'pickle', 'slice',
            'zeros_like', 'truncate_ell', 'independence', 'view', 'from Modes']


def construct(mon, rng, idx, tier):
    s = mg.spin(rng, 8)
    a = int(rng.integers(0, 6)) if rng.random() < .6 else 0
    b = a + int(rng.integers(0, 7))
    sh = gens.shape(rng, 3, 3, zero=rng.random() < .05)
    n = (b + 1) ** 2 - a * a
    w = gens.cplx(rng, sh + (n,)) + 0.0
    given = w.copy()
    sp = ['kw', 'kw+max', 'pos1', 'pos3', 'kwall', 'list', 'floats', 'noncontig', 'F'][idx % 9]
    if sp in ('kw', 'list', 'floats', 'noncontig', 'F'): kw = dict(spin_weight=s, ell_min=a)
    elif sp == 'kw+max': kw = dict(spin_weight=s, ell_min=a, ell_max=b)
    if sp == 'list' and w.size == 0: sp = 'kw'
    mon.ctx.update(spelling=sp, s=s, ell_min=a, ell_max=b, shape=w.shape)
    if sp == 'pos1': m = sf.Modes(w, s, ell_min=a) if a else sf.Modes(w, s)
    elif sp == 'pos3': m = sf.Modes(w, s, a, b)
    elif sp == 'kwall': m = sf.Modes(input_array=w, spin_weight=s, ell_min=a, ell_max=b)
    elif sp == 'list': m = sf.Modes(w.tolist(), **kw)
    elif sp == 'floats': m = sf.Modes(w.view(float), **kw)
    elif sp == 'noncontig':
        buf = np.zeros(sh + (2 * n,), complex); buf[..., ::2] = w; m = sf.Modes(buf[..., ::2], **kw)
    elif sp == 'F': m = sf.Modes(np.asfortranarray(w), **kw)
    else: m = sf.Modes(w, **kw)
    want = np.zeros(sh + ((b + 1) ** 2,), complex)
    want[..., a * a:] = given
    want[..., :s * s] = 0
    mg.check_meta(mon, 'constructor', m, s, b, sh)
    mon.same('stored weights', m.ndarray, want)
    mon.eq('constructor metadata', m.ndarray.dtype, np.dtype(complex))
    for l in range(0, b + 3):
        for mm in {-l - 1, -l, 0, l, l + 1, int(rng.integers(-l, l + 1))}:
            if abs(s) <= l <= b and abs(mm) <= l: mon.eq('index', int(m.index(l, mm)), l * l + l + mm, ell=l, m=mm)
            else: mon.raises('index refused', ValueError, m.index, l, mm)
    mon.key(sp, s, a, b, len(sh))
    # from an existing Modes object: metadata is taken over, keywords override
    src = m if idx % 2 else m.copy()
    m2 = sf.Modes(src)
    mg.check_meta(mon, 'from Modes', m2, s, b, sh); mon.same('from Modes', m2.ndarray, want)
    s2 = s + int(rng.integers(-1, 2))
    m3 = sf.Modes(src, spin_weight=s2)
    mg.check_meta(mon, 'from Modes', src, s, b, sh); mg.check_meta(mon, 'from Modes', m2, s, b, sh)     # data may be shared, metadata not
    w3 = want.copy(); w3[..., :s2 * s2] = 0
    mg.check_meta(mon, 'from Modes', m3, s2, b, sh); mon.same('from Modes', m3.ndarray, w3)
    mg.check_meta(mon, 'from Modes', m, s, b, sh)
    for v in [m.view(), m[...], m[np.newaxis]] + ([m.truncate_ell(b - 1)] if b else []):      # views share data; each has its own spin weight
        v.conjugate(inplace=True)
        mg.check_meta(mon, 'from Modes', m, s, b, sh)
    mon.sample(spelling=sp, s=s, ell_min=a, ell_max=b, shape=w.shape)


def malformed(mon, rng, idx, tier):
    s = mg.spin(rng); a = int(rng.integers(0, 4)); b = a + int(rng.integers(0, 5))
    sh = gens.shape(rng, 2, 3)
    n = (b + 1) ** 2 - a * a
    ok = {(l + 1) ** 2 - a * a for l in range(a, 40)}
    d = int(rng.integers(1, 30))
    while d in ok: d += 1
    z = lambda k: np.ones(sh + (k,), complex)
    mon.ctx.update(s=s, ell_min=a, ell_max=b, bad=d, shape=sh)
    mon.raises('bad size refused', ValueError, sf.Modes, z(d), spin_weight=s, ell_min=a)
    mon.raises('bad size refused', ValueError, sf.Modes, z(n + int(rng.choice([-1, 1, 2]))) if n > 1 else z(n + 1), spin_weight=s, ell_min=a, ell_max=b)
    mon.raises('bad size refused', ValueError, sf.Modes, z(n), s, a, b + 1)
    mon.raises('bad size refused', ValueError, sf.Modes, z(n), s, a + 1, b)
    mon.raises('missing spin refused', ValueError, sf.Modes, z(n), ell_min=a, ell_max=b)
    mon.raises('missing spin refused', ValueError, sf.Modes, z(n), ell_min=a)
    mon.raises('bad arguments refused', ValueError, sf.Modes, z(n), s, a)
    mon.raises('bad arguments refused', ValueError, sf.Modes, z(n), s, a, b, 1)
    mon.key('malformed', a, b, d)


def copies(mon, rng, idx, tier):
    m, w, s, L = mg.modes(rng)
    sh = w.shape[:-1]
    mon.ctx.update(s=s, ell_max=L, shape=w.shape)
    made = []
    def chk(kind, c, w_=w, s_=s, L_=L):
        mg.check_meta(mon, kind, c, s_, L_, w_.shape[:-1]); mon.same(kind, c.ndarray, w_)
    ways = [('copy', m.copy()), ('copy', copy.copy(m)), ('copy', copy.deepcopy(m))]
    for p in range(pickle.HIGHEST_PROTOCOL + 1): ways.append(('pickle', pickle.loads(pickle.dumps(m, p))))
    for k, c in ways: chk(k, c); made.append(c)
    chk('view', m.view()); chk('view', m[...])
    chk('zeros_like', np.zeros_like(m), np.zeros_like(w))
    if sh:
        i = int(rng.integers(sh[0]))
        chk('slice', m[i], w[i]); chk('slice', m[i:i + 1], w[i:i + 1]); chk('slice', m[::-1], w[::-1])
        if len(sh) > 1: chk('slice', m[:, 0], w[:, 0]); chk('slice', m[..., 0, :], w[..., 0, :])
    chk('slice', m[np.newaxis], w[np.newaxis])
    for new in range(-0, L + 3):
        t = m.truncate_ell(new)
        k = min(new, L)
        chk('truncate_ell', t, w[..., :(k + 1) ** 2], s, k)
        # whatever is done next to the truncated object works with its own ell_max
        chk('truncate_ell', t.copy(), w[..., :(k + 1) ** 2], s, k)
        chk('truncate_ell', m)
    # independence: change the original every way we can, copies must not notice
    op = idx % 6
    snap = [c.ndarray.copy() for c in made]
    if op == 0: m.conjugate(inplace=True)
    elif op == 1: m.ndarray[...] = 7.5
    elif op == 2: m *= 3.0
    elif op == 3: np.negative(m, out=m)
    elif op == 4 and hasattr(m, '_metadata'): m._metadata['spin_weight'] = s + 5
    elif op == 5 and L > 0: m.truncate_ell(L - 1)[...] = 9.0
    for c, sn in zip(made, snap):
        mg.check_meta(mon, 'independence', c, s, L, sh); mon.same('independence', c.ndarray, sn)
    # and the other way round
    c = made[int(rng.integers(len(made)))]
    others = [x for x in made if x is not c]      # (c *= rebinds c)
    before, bs, bL = m.ndarray.copy(), m.s, m.ell_max
    c.conjugate(inplace=True); c *= 2.0
    mon.same('independence', m.ndarray, before); mon.ok('independence', m.s == bs and m.ell_max == bL)
    for x in others: mon.eq('independence', (x.s, x.ell_max), (s, L)); mon.same('independence', x.ndarray, w)
    mon.key('copies', op, s, L, len(sh))


def history(mon, rng, idx, tier):
    """a pool of objects with shadow weights and metadata; every operation may touch only what it names"""
    pool = []
    def add(m, w, s, L, shared): pool.append([m, w, s, L, shared])
    for _ in range(3): m, w, s, L = mg.modes(rng, maxL=5); add(m, w.copy(), s, L, None)
    trace = []
    for step in range(12):
        k = int(rng.integers(len(pool))); m, w, s, L, g = pool[k]
        op = ['copy', 'pickle', 'deepcopy', 'slice', 'trunc', 'conj!', 'scale!', 'neg!', 'set!', 'zeros_like', 'real!'][int(rng.integers(11))]
        trace.append((op, k)); mon.ctx.update(history=trace)
        if op == 'copy': add(m.copy(), w.copy(), s, L, None)
        elif op == 'pickle': add(pickle.loads(pickle.dumps(m)), w.copy(), s, L, None)
        elif op == 'deepcopy': add(copy.deepcopy(m), w.copy(), s, L, None)
        elif op == 'zeros_like': add(np.zeros_like(m), np.zeros_like(w), s, L, None)
        elif op == 'slice' and m.ndim > 1: add(m[0].copy(), w[0].copy(), s, L, None)
        elif op == 'trunc': n = int(rng.integers(0, L + 2)); n = min(n, L); add(m.truncate_ell(n).copy(), w[..., :(n + 1) ** 2].copy(), s, n, None)
        elif op == 'conj!':
            m.conjugate(inplace=True); v = np.zeros_like(w)
            for l, mm in ref.LM(0, L): v[..., l * l + l + mm] = (-1) ** ((s + mm) % 2) * w[..., l * l + l - mm].conj()
            pool[k][1], pool[k][2] = v, -s
        elif op == 'scale!': m *= 0.5; pool[k][1] = w * 0.5
        elif op == 'neg!': np.negative(m, out=m); pool[k][1] = -w
        elif op == 'set!' and L >= abs(s):
            mm = int(rng.integers(-L, L + 1)); m[..., m.index(L, mm)] = 2.5; w = w.copy(); w[..., L * L + L + mm] = 2.5; pool[k][1] = w
        for i, (m, w, s, L, g) in enumerate(pool):
            mg.check_meta(mon, 'independence', m, s, L, w.shape[:-1]); mon.close('history', m.ndarray, w, 1e-12 * (1 + np.abs(w).max() if w.size else 1), object=i)
        if len(pool) > 8: pool.pop(int(rng.integers(len(pool))))
    mon.key('history', tuple(o for o, _ in trace[:3]))


WORKLOADS = [W('construct', construct, 1800, 30000), W('malformed', malformed, 400, 5000), W('copies', copies, 700, 12000), W('history', history, 400, 8000)]
