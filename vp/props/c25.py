"""C25: quaternion_angles, complex_powers and the H calculators assemble into the Wigner D matrices."""
import math
import numpy as np
import spherical_functions as sf
from spherical_functions.recursions import quaternion_angles
from spherical_functions.WignerD import WignerDRecursion as full_mod
from spherical_functions.recursions import wignerH as wedge_mod
from .. import ref, gens
from ..core import W
from .c21 import eps

RULE = ("case = one rotor away from the poles: its three complex angles compared with the definition; then D assembled from them, complex_powers and an H calculator, compared "
        "with the package's own Wigner_D_element (ell <= 32) and with the reference; distinct = (branch region of the rotor, kind of calculator, n_max)")
ASSUMPTIONS = ["rotors with |Ra| and |Rb| at least 1e-150 (quaternion_angles divides by both)", "n_max up to 32; tolerance of C01 and C21 together",
               "the (mp, m) phase of the documented D is zp**(mp+m) * zm**(mp-m)"]
REQUIRED = ['angles', 'unit', 'assembled: package', 'assembled: reference', 'input kept']


def rotor(rng):
    while True:
        q, kind = gens.rotor(rng)
        if math.hypot(q[0], q[3]) > 1e-150 and math.hypot(q[1], q[2]) > 1e-150: return q, kind


def angles(mon, rng, idx, tier):
    q, kind = rotor(rng)
    keep = q.copy()
    mon.ctx.update(R=q.tolist(), kind=kind)
    zb, zp, zm = quaternion_angles(q)
    Ra, Rb = complex(q[0], q[3]), complex(q[2], -q[1])
    beta = 2 * math.atan2(abs(Rb), abs(Ra))
    mon.close('angles', zb, complex(math.cos(beta), math.sin(beta)), 4e-15)
    mon.close('angles', zp, Ra / abs(Ra), 4e-15)
    mon.close('angles', zm, Rb / abs(Rb), 4e-15)
    for z in (zb, zp, zm): mon.close('unit', abs(z), 1.0, 4e-15)
    mon.same('input kept', q, keep)
    if idx % 4: return mon.key('angles', gens.region(q), kind)
    # Euler angles put together and taken apart
    al, be, ga = rng.uniform(-2 * np.pi, 2 * np.pi), rng.uniform(.01, np.pi - .01), rng.uniform(-2 * np.pi, 2 * np.pi)
    zb, zp, zm = quaternion_angles(np.array(ref.from_euler(al, be, ga), float))
    mon.ctx.update(euler=(al, be, ga))
    for z, t in ((zb, be), (zp, (al + ga) / 2), (zm, (al - ga) / 2)): mon.close('angles', z, complex(math.cos(t), math.sin(t)), 1e-13)
    mon.key('angles', gens.region(q), kind)
    mon.sample(R=q.tolist(), angles=(zb, zp, zm))


CALC = {}


def assemble(mon, rng, idx, tier):
    kind = ['full', 'wedge'][idx % 2]
    n = [2, 5, 8, 12, 20, 32][int(rng.integers(6)) if rng.random() < .2 else int(rng.integers(4))]
    if (kind, n) not in CALC: CALC[kind, n] = (full_mod if kind == 'full' else wedge_mod).HCalculator(n)
    q, k = rotor(rng)
    mon.ctx.update(R=q.tolist(), kind=kind, n_max=n)
    zb, zp, zm = quaternion_angles(q)
    H = np.asarray(CALC[kind, n](np.array(zb.real), np.array(zb.imag)))
    P, M = sf.complex_powers(zp, 2 * n), sf.complex_powers(zm, 2 * n)
    pw = lambda Z, e: np.where(e >= 0, Z[np.abs(e)], Z[np.abs(e)].conj())
    for l in sorted({n, int(rng.integers(0, n + 1)), 0, 1}):
        r = np.arange(-l, l + 1); mp, m = r[:, None], r[None, :]
        if kind == 'full':
            o = sum((2 * j + 1) ** 2 for j in range(l)); h = H[o:o + (2 * l + 1) ** 2].reshape(2 * l + 1, 2 * l + 1)
        else:
            h = np.array([[H[wedge_mod.wedge_index(*wedge_mod.wedgeify_index(l, int(a), int(b)))] for b in r] for a in r])
        D = eps(l) * h * pw(P, mp + m) * pw(M, mp - m)
        t = ref.tol_D(2 * l) + 4e-14 * (n + 1)
        mon.close('assembled: package', D, np.asarray(sf.Wigner_D_element(gens.q1(q), [l])).reshape(D.shape), t, ell=l)
        mon.close('assembled: reference', D, ref.D_matrix(2 * l, q), t, ell=l)
    mon.key('assembled', kind, n, gens.region(q))
    mon.region('rotor ' + gens.region(q))


def warmup(tier):
    quaternion_angles(np.array([.5, .5, .5, .5]))


WORKLOADS = [W('angles', angles, 8000, 200000), W('assemble', assemble, 1200, 24000)]
