"""C22: complex_powers."""
import math
import numpy as np
import mpmath
import spherical_functions as sf
from spherical_functions.recursions.complex_powers import complex_powers
from .. import gens
from ..core import W

RULE = ("case = one array of unit complex numbers and one M; every power compared with exact powers of the same z (double-double via mpmath for a sample, exp(i m arg z) "
        "for all); distinct = (shape, M class, quadrant set, output kind)")
ASSUMPTIONS = ["z is a unit complex number to rounding; the power of the given z and of its exact normalisation differ by at most m eps",
               "tolerance 10 (m + 1) eps", "M up to 200, one in a hundred up to 5000"]
REQUIRED = ['power', 'shape', 'output array', 'input kept', 'first powers', 'exact sample', 'scalar']
EPS = 2.2204460492503131e-16


def zs(rng, shape):
    n = int(np.prod(shape, dtype=int))
    out = np.empty(n, complex)
    for i in range(n):
        k = rng.integers(7)
        if k < 3: t = rng.uniform(-np.pi, np.pi)
        elif k == 3: out[i] = rng.choice([1, -1, 1j, -1j, complex(-1, -0.0), complex(0.0, -1), complex(-0.0, 1), complex(1, -0.0)]); continue
        elif k == 4: t = rng.integers(-4, 5) * np.pi / 4 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-17, -2)
        elif k == 5: t = rng.integers(-12, 13) * np.pi / 12
        else: t = 10.0 ** rng.uniform(-300, -8) * rng.choice([-1, 1])
        out[i] = complex(math.cos(t), math.sin(t))
    return out.reshape(shape)


def quad(z):
    return ''.join(sorted({'%d%d' % (np.sign(x.real), np.sign(x.imag)) for x in np.ravel(z)})[:3])


def powers(mon, rng, idx, tier):
    sh = [(), (1,), (7,), (2, 3), (2, 1, 3), (4, 4), (12,), (0,)][int(rng.integers(8))]
    if sh and 0 not in sh and rng.random() < .04: sh = gens.lengthen(rng, sh)
    M = [0, 1, 2, 3, int(rng.integers(4, 20)), int(rng.integers(20, 201)), int(rng.integers(0, 60))][int(rng.integers(7))]
    if rng.random() < (.05 if tier == 'thorough' else .01): M = int(rng.integers(200, 5001))
    z = zs(rng, sh)
    kind = ['none', 'fresh', 'dirty', 'nan', 'strided', 'F', 'moved'][int(rng.integers(7))]
    mon.ctx.update(z=z, M=M, out=kind)
    arg = complex(z) if sh == () and rng.random() < .5 else z
    if sh and rng.random() < .3: arg = np.asfortranarray(z) if rng.random() < .5 else np.repeat(z, 2, axis=-1)[..., ::2]
    keep = np.array(arg)
    full = sh + (M + 1,)
    out = None
    if kind in ('fresh', 'dirty', 'nan'): out = np.zeros(full, complex)
    elif kind == 'strided': out = np.zeros(sh + (2 * M + 2,), complex)[..., ::2]
    elif kind == 'F': out = np.zeros(full, complex, order='F')
    elif kind == 'moved': out = np.moveaxis(np.zeros((M + 1,) + sh, complex), 0, -1)
    if out is not None and kind != 'fresh': out[...] = np.nan if kind == 'nan' else rng.normal(size=full) * 50
    r = complex_powers(arg, M) if out is None and rng.random() < .5 else complex_powers(arg, M, out) if rng.random() < .5 else complex_powers(z=arg, M=M, zpowers=out)
    mon.eq('shape', tuple(r.shape), full)
    if isinstance(arg, np.ndarray): mon.same('input kept', arg, keep)
    m = np.arange(M + 1)
    want = np.exp(1j * np.angle(z)[..., None] * m)
    tol = (10 * m + 10) * EPS
    mon.close('power', r, want, np.broadcast_to(tol, full) if full else tol)
    if out is not None: mon.close('output array', out, want, np.broadcast_to(tol, full)); mon.ok('output array', tuple(out.shape) == full)
    if M >= 1 and z.size: mon.close('first powers', np.stack([r[..., 0], r[..., 1]]), np.stack([np.ones(sh, complex), z]), 1e-15)
    if z.size and M:
        zz = complex(np.ravel(z)[0]); k = int(rng.integers(1, M + 1))
        with mpmath.workdps(40): e = complex((mpmath.mpc(zz) / abs(mpmath.mpc(zz))) ** k)
        mon.close('exact sample', np.reshape(r, (-1, M + 1))[0, k], e, (10 * k + 10) * EPS, z=zz, m=k)
    if sh == (): mon.ok('scalar', True)
    mon.key(sh, M if M < 4 else M // 10 * 10, quad(z), kind)
    for x in np.ravel(z): mon.region('Re %+d Im %+d' % (np.sign(x.real), np.sign(x.imag)))
    mon.sample(z=z, M=M, out=kind)


WORKLOADS = [W('powers', powers, 6000, 200000)]
