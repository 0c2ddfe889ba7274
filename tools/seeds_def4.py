# Fourth batch of planted changes; same format as seeds_def.py
import runpy, os
_d = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_def.py'))
globals().update({k: v for k, v in _d.items() if len(k) == 2 and k.isupper()})
MF = 'spherical_functions/SWSH_modes/ufuncs.py'; MA = 'spherical_functions/SWSH_modes/algebra.py'; GF = 'spherical_functions/SWSH_grids/ufuncs.py'; GA = 'spherical_functions/SWSH_grids/algebra.py'
MU = 'spherical_functions/SWSH_modes/utilities.py'; MD = 'spherical_functions/SWSH_modes/derivatives.py'
S = []
def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed('c15-conj-overlap', 'C15', [(MF, "            c = np.zeros_like(s)\n", "            c = np.zeros_like(s) if out is None or out[0].shape != s.shape else out[0].view(np.ndarray)\n", None)], '''
rng = np.random.default_rng(1)
w = rng.normal(size=(6, 16)) + 1j * rng.normal(size=(6, 16))
want = sf.Modes(w.copy(), spin_weight=0).conjugate().ndarray
for A, B in ((slice(None, -1), slice(1, None)), (slice(1, None), slice(None, -1)), (slice(None), slice(None, None, -1))):
    b = sf.Modes(w.copy(), spin_weight=0)
    np.conjugate(b[A], out=b[B])
    assert np.allclose(b[B].ndarray, want[A], atol=1e-14, rtol=0), (A, B)
''', "np.conjugate with out= another part of the same collection of functions that overlaps the input", "the output is written while the overlapping input is still being read")

seed('c26-nan-real', 'C26', [(MF, "        args = [arg.view(np.ndarray) if isinstance(arg, type(self)) else arg for arg in args]\n",
     "        args = [arg.view(np.ndarray) if isinstance(arg, type(self)) else arg for arg in args]\n        if ufunc is np.isinf:\n            args = [np.abs(arg) for arg in args]\n", None)], '''
w = np.ones((3, 9), complex)
w[1, 2] = complex(np.nan, np.inf); w[2, 3] = complex(-np.inf, 1); w[0, 4] = complex(1e200, 1e308) * 1.5
m = sf.Modes(w.copy(), spin_weight=0)
assert np.array_equal(np.isinf(m), np.isinf(w))
w = np.full(9, 1.5e308 + 1.5e308j); m = sf.Modes(w.copy(), spin_weight=0)
assert not np.any(np.isinf(m)), np.isinf(m)
''', "a finite weight whose modulus overflows", "np.isinf of the modulus reports finite weights as infinite")

seed('c27-norm-order', 'C27', [(MA, "    return np.linalg.norm(self.view(np.ndarray), axis=-1)", "    a = self.view(np.ndarray)\n    return np.linalg.norm(a.reshape((-1, a.shape[-1]), order='A'), axis=-1).reshape(a.shape[:-1])", None)], '''
rng = np.random.default_rng(1)
w = rng.normal(size=(3, 4, 16)) + 1j * rng.normal(size=(3, 4, 16))
want = np.sqrt((abs(w)**2).sum(-1))
for x in (w.copy(), np.asfortranarray(w)):
    m = sf.Modes(x, spin_weight=0)
    assert np.allclose(m.norm(), want, atol=0, rtol=1e-12)
''', "a Fortran-ordered Modes object with two leading axes", "the norms of the functions come out in another order")

seed('c28-ethbar-big', 'C28', [(MD, "            d[..., d.index(ell, m)] = math.sqrt((ell+self.s)*(ell-self.s+1)) * ", "            d[..., d.index(ell, m)] = math.sqrt((ell+self.s)*(ell-self.s+1)) * ", None)], "", "", "")
S.pop()
