"""Generators: hostile and ordinary inputs.  Everything is drawn from the case's own rng."""
import numpy as np, math

EDGE = [0.0, 5e-324, 1e-310, 1e-200, 1e-160, 1e-100, 1e-30, 1e-17, 2e-16, 9.9e-16, 1e-15, 1.0000001e-15, 1.1e-15, 2e-15, 1e-14,
        1e-12, 1e-10, 1e-8, 1.5e-8, 1e-6, 1e-4, 1e-3, 1e-2, 0.1]


def unit(rng):
    q = rng.normal(size=4)
    return q / np.linalg.norm(q)


KINDS = ['random', 'random', 'random', 'near_b0', 'near_b0', 'near_a0', 'near_a0', 'special', 'equal', 'nearly_equal', 'axis']


def rotor(rng, kind=None):
    """A unit quaternion (float array of 4) and the kind it belongs to"""
    kind = kind or KINDS[rng.integers(len(KINDS))]
    if kind == 'random':
        q = unit(rng)
    elif kind in ('near_b0', 'near_a0'):
        if rng.random() < 0.5: r = EDGE[rng.integers(len(EDGE))]
        else: r = 10.0 ** rng.uniform(-18, -1)
        p, t = rng.uniform(-np.pi, np.pi, 2)
        if rng.random() < 0.3: p = rng.integers(-4, 5) * np.pi / 4
        if rng.random() < 0.3: t = rng.integers(-4, 5) * np.pi / 4
        big, small = math.sqrt(1 - min(r, 1) ** 2) * np.exp(1j * p), r * np.exp(1j * t)
        if rng.random() < 0.2: big = complex(round(big.real), round(big.imag)) if abs(abs(big.real) - 1) < .3 or abs(abs(big.imag) - 1) < .3 else big
        Ra, Rb = (big, small) if kind == 'near_b0' else (small, big)
        q = np.array([Ra.real, Rb.imag, Rb.real, Ra.imag])
        n = np.linalg.norm(q)
        if abs(n - 1) > 5e-16: q = q / n
    elif kind == 'special':
        q = rng.integers(-1, 2, 4).astype(float)
        while not q.any(): q = rng.integers(-1, 2, 4).astype(float)
        q = q / np.linalg.norm(q)
    elif kind == 'equal':
        a, b = rng.integers(-8, 9, 2) * np.pi / 8 if rng.random() < .5 else rng.uniform(-np.pi, np.pi, 2)
        Ra, Rb = np.exp(1j * a) / math.sqrt(2), np.exp(1j * b) / math.sqrt(2)
        q = np.array([Ra.real, Rb.imag, Rb.real, Ra.imag])
    elif kind == 'nearly_equal':
        a, b = rng.uniform(-np.pi, np.pi, 2)
        x = np.pi / 4 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-17, -2)
        Ra, Rb = np.exp(1j * a) * math.cos(x), np.exp(1j * b) * math.sin(x)
        q = np.array([Ra.real, Rb.imag, Rb.real, Ra.imag])
    elif kind == 'axis':       # rotation about one axis by an ordinary or special angle
        t = rng.uniform(-2 * np.pi, 2 * np.pi) if rng.random() < .6 else rng.integers(-8, 9) * np.pi / 4
        q = np.zeros(4); q[0] = math.cos(t / 2); q[rng.integers(1, 4)] = math.sin(t / 2)
    if rng.random() < 0.1: q = -q
    return q, kind


def region(q):
    """Which branch of the evaluation a rotor exercises"""
    ra, rb = math.hypot(q[0], q[3]), math.hypot(q[1], q[2])
    def c(x):
        return '0' if x == 0 else '<=1e-15' if x <= 1e-15 else '<=1e-8' if x <= 1e-8 else '<=1e-2' if x <= 1e-2 else 'O(1)'
    if ra == rb: return 'ra=rb'
    if rb < ra: return 'rb ' + c(rb)
    return 'ra ' + c(ra)


def rotors(rng, shape, kind=None):
    n = int(np.prod(shape, dtype=int))
    return np.array([rotor(rng, kind)[0] for _ in range(n)]).reshape(tuple(shape) + (4,))


def shape(rng, maxdim=3, maxlen=4, zero=False, long=.03, top=400):
    """leading axes: usually short, now and then one long axis (code that works in blocks must get the last block right)"""
    s = tuple(int(x) for x in rng.integers(0 if zero else 1, maxlen + 1, rng.integers(0, maxdim + 1)))
    return lengthen(rng, s, top) if s and not zero and rng.random() < long else s


def lengthen(rng, s, top=400):
    s = [min(n, 2) for n in s]
    s[int(rng.integers(len(s)))] = int(rng.integers(20, 70)) if top <= 70 or rng.random() < .5 else int(rng.integers(70, top))
    return tuple(s)


def cplx(rng, shape):
    """Complex weights: ordinary, sparse, widely scaled, real, single-mode, tiny or huge, or cancelling along the leading axes"""
    k = rng.integers(9)
    z = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    if k == 1: z = z * (rng.random(shape) < 0.3)
    elif k == 2: z = z * 10.0 ** rng.uniform(-3, 3, shape)
    elif k == 3: z = z.real + 0j
    elif k == 4 and z.size:
        w = np.zeros(shape, complex); w.reshape(-1)[rng.integers(z.size)] = 1.0; z = w
    elif k == 5 and z.ndim > 1: z = z * 10.0 ** rng.uniform(-20, 20, tuple(shape[:-1]) + (1,))         # each leading index has its own scale
    elif k == 6: z = z * 10.0 ** rng.uniform(-60, 60)
    elif k == 7 and z.ndim > 1 and z.shape[0] > 1: z[1] = -z[0]; z[2:] = 0            # sums and means over the leading axis vanish
    elif k == 8: z = z * (rng.random(shape[-1:]) < 0.3)                                # whole modes vanish, for all leading indices
    return z


def nudge(rng, x):
    """a number a few units in the last place away from x (an index that carries rounding error)"""
    return float(x) * (1 + float(rng.choice([-4, -2, -1, 1, 2, 4])) * 2.0 ** -52)


def q(arr):
    import quaternion
    return quaternion.as_quat_array(np.array(arr, float))


def q1(arr):
    import quaternion
    return np.quaternion(*[float(x) for x in arr])


def work(name, nargs):
    """A compiled work function of the package, if it is still there with the same number of arguments (they are not the documented interface)"""
    import spherical_functions as sf
    f = getattr(sf, name, None)
    c = getattr(getattr(f, 'py_func', f), '__code__', None)
    return f if c is not None and c.co_argcount == nargs else None
