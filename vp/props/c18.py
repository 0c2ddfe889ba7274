"""C18: constants and vectors to and from their modes."""
import math
import numpy as np
import spherical_functions as sf
from .. import ref, gens, mg
from ..core import W

RULE = "case = one constant or vector array (real or complex, some leading shape), converted, evaluated at random directions and converted back; distinct = (kind, type, leading axes, magnitude class)"
ASSUMPTIONS = ["vectors have 3 components on the last axis", "agreement to a few ulp (1e-14 relative to the vector's norm)"]
REQUIRED = ['constant modes', 'constant value', 'constant back', 'constant forth', 'vector modes', 'vector value', 'vector back', 'vector forth', 'input kept']
SQ = math.sqrt


def shapes(idx, rng):
    s = [(), (3,), (2, 2), (4,), (1,), (2, 3), (5,), (2, 1, 2)][idx % 8]
    return gens.lengthen(rng, s) if s and rng.random() < .04 else s


def constant(mon, rng, idx, tier):
    sh = shapes(idx, rng); cx = idx // 8 % 2
    mag = 10.0 ** int(rng.integers(-12, 13) if rng.random() < .8 else rng.integers(-130, 131))
    c = rng.normal(size=sh) * mag + (1j * rng.normal(size=sh) * mag if cx else 0)
    if sh == (): c = complex(c) if cx else float(c)
    k = np.array(c)
    mon.ctx.update(constant=c)
    a = sf.constant_as_ell_0_mode(c)
    t = 1e-15 * np.abs(k) * 4
    mon.close('constant modes', a, k * SQ(4 * math.pi), t * 4 + 1e-290)
    Y = ref.sYlm(mg.test_rotors(rng, 1), 0, 0)[0, 0]
    mon.close('constant value', np.asarray(a) * Y, k + 0j, t * 4 + 1e-290)
    mon.close('constant back', sf.constant_from_ell_0_mode(a), k, t + 1e-290)
    mon.close('constant forth', sf.constant_as_ell_0_mode(sf.constant_from_ell_0_mode(c)), k, t + 1e-290)
    mon.close('constant forth', sf.constant_from_ell_0_mode(c), k / SQ(4 * math.pi), t + 1e-290)
    if sh: mon.same('input kept', c, k)
    mon.key('constant', cx, sh, mag)


def vector(mon, rng, idx, tier):
    sh = shapes(idx, rng); cx = idx // 8 % 2
    mag = 10.0 ** int(rng.integers(-12, 13) if rng.random() < .8 else rng.integers(-130, 131))
    v = rng.normal(size=sh + (3,)) * mag + (1j * rng.normal(size=sh + (3,)) * mag if cx else 0)
    if rng.random() < .2: v[...] = 0; v[..., int(rng.integers(3))] = mag * (1j if cx and rng.random() < .5 else 1)
    k = v.copy()
    mon.ctx.update(vector=v)
    n = np.linalg.norm(v, axis=-1, keepdims=True)
    t = 2e-15 * n + 1e-290
    a = sf.vector_as_ell_1_modes(v)
    mon.ok('vector modes', a.shape == sh + (3,) and a.dtype == complex)
    want = np.stack([(k[..., 0] + 1j * k[..., 1]) * SQ(2 * math.pi / 3), k[..., 2] * SQ(4 * math.pi / 3) + 0j, (-k[..., 0] + 1j * k[..., 1]) * SQ(2 * math.pi / 3)], -1)
    mon.close('vector modes', a, want, 4 * t)
    # independent of the formula: evaluate at directions
    th, ph = np.arccos(rng.uniform(-1, 1, 4)), rng.uniform(0, 2 * np.pi, 4)
    Y = ref.sYlm(ref.from_theta_phi(th, ph), 0, 1)
    nh = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], -1)
    mon.close('vector value', np.einsum('...k,rk->...r', a, Y), np.einsum('...k,rk->...r', k, nh) + 0j, 1e-14 * n + 1e-290)
    mon.close('vector back', sf.vector_from_ell_1_modes(a), k + 0j, 2 * t)
    b = sf.vector_from_ell_1_modes(v + 0j)
    mon.close('vector forth', sf.vector_as_ell_1_modes(b), k + 0j, 2 * t)
    m = sf.Modes(a.copy(), spin_weight=0, ell_min=1, ell_max=1)
    mon.close('vector value', m.evaluate(gens.q(ref.from_theta_phi(th, ph))), np.einsum('...k,rk->...r', k, nh) + 0j, 1e-13 * n + 1e-290)
    mon.same('input kept', v, k)
    mon.key('vector', cx, sh, mag)
    mon.sample(vector=v, modes=a)


WORKLOADS = [W('constant', constant, 800, 8000), W('vector', vector, 800, 8000)]
