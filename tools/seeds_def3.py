# Third batch of planted changes; same format as seeds_def.py
import runpy, os
_d = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_def.py'))
globals().update({k: v for k, v in _d.items() if len(k) == 2 and k.isupper()})
RI = 'spherical_functions/recursions/__init__.py'
S = []
def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed('c25-unit', 'C25', [(RI, "    sqrtb = np.sqrt(b)\n", "    sqrtb = np.sqrt(abs(1.0 - a))\n", None)], '''
from spherical_functions.recursions import quaternion_angles
for b in (0.5, 1e-2, 1e-5, 3e-9):
    zb, zp, zm = quaternion_angles(np.array([np.sqrt(1-b*b)*.6, b*.28, b*.96, np.sqrt(1-b*b)*.8]))
    assert abs(zm - (.96-.28j)) < 1e-13, (b, zm)
    assert abs(zb.imag - 2*b*np.sqrt(1-b*b)) < 1e-13, (b, zb)
''', "a rotor near the north pole", "sin(beta) and the phase z_m lose their accuracy by cancellation")

seed('c02-terms', 'C02', [(WD, "for rho in range(rhoMax, rhoMin, -1):", "for rho in range(min(rhoMax, rhoMin + 12), rhoMin, -1):", 2)], '''
R = np.quaternion(.8, .3, -.4, .3).normalized()
for l in (2, 8, 16, 24, 32):
    D = sf.Wigner_D_matrices(R, l, l).reshape(2*l+1, 2*l+1)
    e = abs(D @ D.conj().T - np.eye(2*l+1)).max()
    assert e < 1e-6, (l, e)
''', "ell above 12 and a rotor that is not close to the pole, in Wigner_D_matrices", "the series is cut off: matrices of high ell are not unitary")

seed('c04-half-limit', 'C04', [(WD, "    if (twoell > 2*sf_ell_max or", "    if (twoell // 2 > sf_ell_max or", None)], '''
R = np.quaternion(.8, .3, -.4, .3).normalized()
try:
    x = sf.Wigner_D_element(R, 32.5, .5, -.5)
    raise SystemExit('no refusal: %r' % x)
except ValueError: pass
assert abs(sf.Wigner_D_element(R, 32, 0, 0)) <= 1
''', "the half-integer ell = 32.5 just above the supported maximum", "coefficients are read beyond the supported table and a made-up value is returned")

seed('c14-div-alias', 'C14', [(MF, "        if out is not None and isinstance(out[0], type(self)):\n            out[0]._metadata = copy.copy(self._metadata)\n\n    elif ufunc in [np.conj", "        if out is not None and isinstance(out[0], type(self)):\n            out[0]._metadata = self._metadata\n\n    elif ufunc in [np.conj", None)], '''
w = np.zeros(9, complex); w[4:] = np.arange(1, 6)
m = sf.Modes(w, spin_weight=2, ell_max=2); o = sf.Modes(np.zeros(9, complex), spin_weight=0, ell_max=2)
np.divide(m, 2.0, out=o)
o.conjugate(inplace=True)
assert (m.s, o.s) == (2, -2), (m.s, o.s)
''', "division with out= a Modes object, then an in-place operation that changes the spin weight of the output", "the spin weight of the other object changes too")

seed('c13-fmod', 'C13', [(MF, "if (args[0].s+m)%2 == 0:", "if math.fmod(args[0].s+m, 2) != 1:", None), (MF, "import copy\n", "import copy\nimport math\n", None)], '''
for s in range(-5, 6):
    w = np.zeros(49, complex); w[s*s:] = np.arange(s*s, 49) + 1j*np.cos(np.arange(s*s, 49))
    m = sf.Modes(w.copy(), spin_weight=s, ell_max=6); R = np.quaternion(.1, .5, -.3, .7).normalized()
    assert abs(np.conjugate(m).evaluate(R) - np.conjugate(m.evaluate(R))) < 1e-10, s
''', "np.conjugate of Modes with spin weight at most -2", "wrong signs of the modes with s+m odd and negative")

seed('c24-inverse-inplace', 'C24', [(MC, "    ethbar_inverse_modes = np.copy(modes)\n", "    ethbar_inverse_modes = modes\n", None)], '''
w = np.arange(1, 17) + 1j; k = w.copy()
sf.ethbar_inverse_NP(w, -2, 0)
assert np.array_equal(w, k), w
''', "looking at the input array after the call", "ethbar_inverse_NP overwrites the caller's mode weights")

seed('c21-parity', 'C21', [(WR, "        prefactor[:] = 1/const\n", "        prefactor[:] = 1/np.float32(const) if n > 24 else 1/const\n", None)], '''
from spherical_functions.WignerD.WignerDRecursion import HCalculator
for n in (4, 16, 30):
    H = HCalculator(n)(np.array([.3]))[:, 0]
    for l in range(n+1):
        o = sum((2*j+1)**2 for j in range(l)); h = H[o:o+(2*l+1)**2].reshape(2*l+1, 2*l+1)
        e = abs(h @ h.T - np.eye(2*l+1)).max()
        assert e < 1e-10, (n, l, e)
''', "n_max above 24", "the Legendre values are scaled in single precision: about 1e-8 errors in the d functions")

