# Second batch of planted changes; same format as seeds_def.py
import runpy, os
_d = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_def.py'))
globals().update({k: v for k, v in _d.items() if len(k) == 2 and k.isupper()})
S = []
def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

seed('c07-node', 'C07', [(W3, "            if F_minus[j_mid - 1] != 0.0 and abs(F_minus_j_mid / F_minus[j_mid - 1]) < 1.0e-6:\n                j_mid -= 1\n                F_minus_j_mid = F_minus[j_mid]\n", "", None)], '''
import itertools
bad = []
for j2 in range(0, 15):
    for j3 in range(0, j2+1):
        c = sf.Wigner3jCalculator(j2, j3)
        for m2 in range(-j2, j2+1):
            for m3 in range(-j3, j3+1):
                f = c.calculate(j2, j3, m2, m3); lo = max(abs(j2-j3), abs(m2+m3))
                s = sum((2*j+1)*f[j]**2 for j in range(lo, j2+j3+1))
                # orthogonality to the next family with the same m1
                if not abs(s-1) < 1e-10: bad.append((j2, j3, m2, m3, s))
                g = sf.Wigner3j(lo, j2, j3, -m2-m3, m2, m3); h = (-1)**(lo+j2+j3)*sf.Wigner3j(lo, j3, j2, -m2-m3, m3, m2)
                if not abs(g-h) < 1e-10: bad.append((lo, j2, j3, m2, m3, g, h))
assert not bad, bad[:3]
''', "a family of 3-j symbols with an exact zero where the two recurrences meet", "division by a value that is only rounding noise: wrong or non-finite symbols")

seed('c08-skip', 'C08', [(W3, "        # Set up the workspace\n        self.workspace[:] = 0.0\n        f = self.workspace[:self.size]\n", "        # Set up the workspace\n        f = self.workspace[:self.size]\n", None), (W3, "        if j_max < j_min:\n            return f\n", "        if j_max < j_min:\n            return f\n        self.workspace[:] = 0.0\n", None)], '''
c = sf.Wigner3jCalculator(6, 6)
c.calculate(5, 5, 1, 2)
f = np.array(c.calculate(2, 3, 3, 0))
assert np.all(f == 0), f
''', "a call without any valid symbol (|m| > j) after another call on the same calculator", "the previous family is returned instead of zeros")

seed('c09-half', 'C09', [(IN, "    LMpM = np.empty((int(((8*ell_max + 18)*ell_max + 13)*ell_max + 3 - ((8 * ell_min + 6) * ell_min + 1)*ell_min) // 3,", "    LMpM = np.empty((int(((8*ell_max + 18)*ell_max + 13)*ell_max + 3 - ((8 * ell_min + 6) * ell_min + 1)*int(ell_min)) // 3,", None)], '''
for a2 in range(0, 7):
    for b2 in range(a2, 9):
        got = sf.LMpM_range_half_integer(a2/2, b2/2)
        n = sum((t+1)**2 for t in range(a2, b2+1))
        assert got.shape == (n, 3), (a2, b2, got.shape, n)
''', "a half-odd-integer ell_min", "the returned array has the wrong length (extra uninitialised rows)")

seed('c09-lmindex32', 'C09', [(IN, "@njit('i8(i8,i8)')\ndef LM_total_size", "@njit('i4(i4,i4)')\ndef LM_total_size", None)], '''
for l in (10, 1000, 40000, 70000):
    assert sf.LM_total_size(0, l) == (l+1)**2, (l, sf.LM_total_size(0, l))
''', "ell above 46340", "the size overflows 32 bits")

seed('c11-zero', 'C11', [(MI, """            obj = input_array.view(cls)
        else:
            insertion_indices = [0,]*LM_total_size(0, ell_min-1)
            obj = np.insert(input_array, insertion_indices, 0.0, axis=-1).view(cls)
        obj[..., :LM_total_size(0, abs(spin_weight)-1)] = 0.0
""", """            obj = input_array.view(cls)
            obj[..., :LM_total_size(0, abs(spin_weight)-1)] = 0.0
        else:
            insertion_indices = [0,]*LM_total_size(0, ell_min-1)
            obj = np.insert(input_array, insertion_indices, 0.0, axis=-1).view(cls)
""", None)], '''
m = sf.Modes(np.ones(25-1, complex), spin_weight=-2, ell_min=1)
assert np.all(m.ndarray[:4] == 0) and np.all(m.ndarray[4:] == 1), m.ndarray
''', "input data with 0 < ell_min < |s| and non-zero values there", "meaningless modes with ell < |s| are kept")

seed('c12-tiny', 'C12', [(MU, "            sum1 = sqrt1*f[..., LM_index(ell1, m1, ellmin_f)]  # Calculate f contribution\n", "            sum1 = sqrt1*f[..., LM_index(ell1, m1, ellmin_f)]  # Calculate f contribution\n            if np.sum(np.abs(sum1)) < 1e-16:\n                continue  # Nothing to add\n", None)], '''
r = np.random.default_rng(1)
f = (r.normal(size=16)+1j*r.normal(size=16)); g = (r.normal(size=9)+1j*r.normal(size=9))
a = sf.multiply(f*1e-20, 0, 3, 0, g*1e20, 0, 2, 0)[0]; b = sf.multiply(f, 0, 3, 0, g, 0, 2, 0)[0]
assert np.allclose(a, b, rtol=1e-12, atol=1e-12), (a[:3], b[:3])
''', "a first factor whose weights are tiny in absolute terms", "their contribution to the product is dropped")

seed('c12-broadcast', 'C12', [(MU, "            sum1 = sqrt1*f[..., LM_index(ell1, m1, ellmin_f)]  # Calculate f contribution\n", "            sum1 = sqrt1*f[..., LM_index(ell1, m1, ellmin_f)]  # Calculate f contribution\n            if np.sum(sum1) == 0:\n                continue  # Nothing to add\n", None)], '''
r = np.random.default_rng(1)
f = np.zeros((2, 9), complex); f[0, 6] = 1; f[1, 6] = -1
g = r.normal(size=(2, 9))+1j*r.normal(size=(2, 9))
a = sf.multiply(f, 0, 2, 0, g, 0, 2, 0)[0]
for i in range(2):
    b = sf.multiply(f[i], 0, 2, 0, g[i], 0, 2, 0)[0]
    assert np.allclose(a[i], b), i
''', "several functions at once whose weights for some mode add up to zero", "that mode is dropped from the product")

seed('c13-tiny-conj', 'C13', [(MF, "                if args[0].s%2 == 0:\n                    c[..., i] = np.conjugate(s[..., i])", "                if args[0].s%4 != 1 and args[0].s%4 != -1 and args[0].s != -1:\n                    c[..., i] = np.conjugate(s[..., i])", None)], '''
for s in range(-4, 5):
    m = sf.Modes(np.arange(36)*(1+.5j), spin_weight=s)
    assert np.allclose(np.conjugate(m).ndarray, m.conjugate().ndarray), s
''', "np.conjugate of modes of spin weight 3 or -5", "the m=0 modes get the wrong sign")

seed('c14-anyall', 'C14', [(MF, "            if np.any(scalars) or not modes._check_broadcasting(scalars):", "            if np.all(scalars) or not modes._check_broadcasting(scalars):", None)], '''
m = sf.Modes(np.ones((3, 9), complex), spin_weight=0)
try: r = m + np.array([0., 1., 2.])
except (ValueError, TypeError): pass
else: raise AssertionError(r.ndarray[1])
''', "an array of constants with both zero and non-zero entries", "adding non-zero constants to every mode weight is accepted")

seed('c14-grid-any', 'C14', [(GA, '        raise ValueError(f"It is not permitted to subtract non-zero scalars', '        if np.ndim(other) == 0: raise ValueError(f"It is not permitted to subtract non-zero scalars', None), (GA, "    else:\n        result = self.view(np.ndarray) - other\n        return type(self)(result, **self._metadata)\n", "    result = self.view(np.ndarray) - other\n    return type(self)(result, **self._metadata)\n", None)], '''
g = sf.Grid(np.ones((2, 7, 7), complex), spin_weight=1)
try: r = g.subtract(np.ones((2, 1, 1)))
except (ValueError, TypeError): pass
else: raise AssertionError(r)
''', "subtracting an array (not a single number) of constants from a grid with spin weight", "nonsense is computed instead of being refused")

seed('c15-rmul-out', 'C15', [(MF, """            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
            if out is not None and isinstance(out[0], type(self)):
                out[0]._metadata = copy.copy(self._metadata)
        else:
            return NotImplemented

    elif ufunc in [np.divide""", """            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
        else:
            return NotImplemented

    elif ufunc in [np.divide""", None)], '''
m = sf.Modes(np.arange(16)*(1+0j), spin_weight=1); o = sf.Modes(np.zeros(16, complex), spin_weight=-2)
np.multiply(2.0, m, out=o)
assert o.s == 1, o.s
''', "scalar times Modes with out= an object of another spin weight", "the output keeps its old spin weight")

seed('c15-conj-seq', 'C15', [(MA, """            if (self.s+m)%2 == 0:
                c[..., i_p], c[..., i_n] = np.conjugate(s[..., i_n]), np.conjugate(s[..., i_p])
            else:
                c[..., i_p], c[..., i_n] = -np.conjugate(s[..., i_n]), -np.conjugate(s[..., i_p])
    if inplace""", """            sign = 1 if (self.s+m)%2 == 0 else -1
            if m < ell or m < 4:
                c[..., i_p], c[..., i_n] = sign*np.conjugate(s[..., i_n]), sign*np.conjugate(s[..., i_p])
            else:
                c[..., i_p] = sign*np.conjugate(s[..., i_n])
                c[..., i_n] = sign*np.conjugate(s[..., i_p])
    if inplace""", None)], '''
m = sf.Modes(np.arange(36)*(1+.5j), spin_weight=1)
a = m.conjugate(); b = m.copy().conjugate(inplace=True)
assert np.allclose(a.ndarray, b.ndarray)
''', "in-place conjugation of modes with ell = m >= 4", "the (ell, -ell) mode is not conjugated")

seed('c16-lplus-dtype', 'C16', [(MD, "            d[..., d.index(ell, m)] = math.sqrt((ell+m)*(ell-m+1)) * s[..., self.index(ell, m-1)]", "            d[..., d.index(ell, m)] = np.float32(math.sqrt((ell+m)*(ell-m+1))) * s[..., self.index(ell, m-1)]", None)], '''
m = sf.Modes(np.arange(1, 37)*(1+.5j), spin_weight=0)
d = m.Lplus().ndarray
for l in range(6):
    for k in range(-l+1, l+1):
        w = np.sqrt((l+k)*(l-k+1))*m.ndarray[l*l+l+k-1]
        assert abs(d[l*l+l+k]-w) < 1e-12*abs(w), (l, k, d[l*l+l+k], w)
''', "an accuracy better than single precision", "the factors of Lplus are rounded to single precision (relative error 6e-8)")

seed('c16-rminus-neg', 'C16', [(MD, "                math.sqrt((ell+d.s)*(ell-d.s+1))", "                math.sqrt((ell+abs(d.s))*(ell-abs(d.s)+1) if self.s > -4 else (ell+d.s)*(ell+d.s+1))", None)], '''
for s in range(-7, 7):
    m = sf.Modes(np.arange(1, 101)*(1+.5j), spin_weight=s); d = m.eth.ndarray
    for l in range(max(abs(s), abs(s+1)), 10):
        assert np.allclose(d[l*l:(l+1)**2], np.sqrt((l-s)*(l+s+1))*m.ndarray[l*l:(l+1)**2]), (s, l)
''', "eth on a negative spin weight", "the factor for negative spin weights is wrong")

seed('c17-bar-negative', 'C17', [(MC, "        factor = (0.0 if ell < abs(spin_weight - 1) else -sqrt((ell + spin_weight) * (ell - spin_weight + 1.) / 2.))", "        factor = (0.0 if ell < abs(spin_weight) + (1 if spin_weight < 1 or ell > 6 else -1) else -sqrt((ell + spin_weight) * (ell - spin_weight + 1.) / 2.))", None)], '''
for s in range(-9, 10):
    for a in range(0, 3):
        w = np.ones(121-a*a, complex); w[:max(0, s*s-a*a)] = 0
        got = sf.ethbar_GHP(w, s, a); i = 0
        for l in range(a, 11):
            f = -np.sqrt((l+s)*(l-s+1)/2) if l >= max(abs(s), abs(s-1)) else 0
            assert np.allclose(got[i:i+2*l+1], f*w[i:i+2*l+1]), (s, l, got[i]); i += 2*l+1
''', "ethbar_GHP with spin weight above 6 at the lowest ell values", "those modes are set to zero")

seed('c17-inverse', 'C17', [(MC, "        if term > 0.0:\n", "        if term > 2.0:\n", None)], '''
w = np.ones(9, complex)
got = sf.ethbar_inverse_NP(w, 0, 0)
assert np.allclose(got[1:4], -1/np.sqrt(2)), got
''', "ethbar_inverse_NP at the ell just above the kernel (ell=1, s=0 or s=-1)", "those modes are passed through unchanged")

seed('c18-int', 'C18', [(MC, "                     np.asarray(vector[..., 2] * sqrt(4 * pi / 3.)),", "                     np.asarray(vector[..., 2].real * sqrt(4 * pi / 3.)),", None)], '''
v = np.array([1+1j, 2-1j, 3+2j])
assert np.allclose(sf.vector_from_ell_1_modes(sf.vector_as_ell_1_modes(v)), v)
''', "a vector with complex components", "the imaginary part of v_z is lost")

seed('c19-eval-order', 'C19', [(MT, """    SWSHs = sf.SWSH_grid(rotors, self.spin_weight, self.ell_max)
""", """    SWSHs = sf.SWSH_grid(rotors.ravel(order='K'), self.spin_weight, self.ell_max).reshape(rotors.shape+(-1,))
""", None)], '''
r = np.random.default_rng(3)
R = quaternion.as_quat_array(r.normal(size=(3, 4, 4))); R = R/np.abs(R)
m = sf.Modes(r.normal(size=16)+1j*r.normal(size=16), spin_weight=1)
a = m.evaluate(np.ascontiguousarray(R)); b = m.evaluate(np.asfortranarray(R)); c = m.evaluate(np.ascontiguousarray(R.T).T)
assert np.allclose(a, b) and np.allclose(a, c)
''', "a multi-dimensional array of rotors that is not C-contiguous", "values are returned in the wrong positions")

seed('c20-power', 'C20', [(GF, "            metadata['spin_weight'] = exponent * args[0].s\n", "            metadata['spin_weight'] = abs(exponent) * args[0].s\n", None)], '''
g = sf.Grid(np.full((9, 9), 2+1j), spin_weight=1)
assert (g**-2).s == -2, (g**-2).s
''', "a negative exponent", "the spin weight of the result has the wrong sign")

seed('c21-narrow', 'C21', [(WH, "        n = np.array([n for n in range(self.n_max+2) for m in range(-n, n+1)])\n        m = np.array([m for n in range(self.n_max+2) for m in range(-n, n+1)])\n", "        n = np.array([n for n in range(self.n_max+2) for m in range(-n, n+1)], dtype=np.int16)\n        m = np.array([m for n in range(self.n_max+2) for m in range(-n, n+1)], dtype=np.int16)\n", None)], '''
H = sf.recursions.wignerH.HCalculator(100)(0.3)
from scipy.special import eval_legendre
for n in (10, 90, 95, 100):
    v = H[sf.recursions.wignerH.wedge_index(n, 0, 0)]
    assert abs(v - eval_legendre(n, 0.3)) < 1e-10, (n, v)
''', "n_max of 90 or more", "the coefficients overflow 16 bits")

seed('c21-full-ws', 'C21', [(WR, "XX", "YY", None)], '', '', '') if False else None

seed('c22-tolerance', 'C22', [(CP, "        while z.real<0 or z.imag<0:\n", "        while z.real<0 or z.imag<-1e-12:\n", None)], '''
th = -1e-13
z = np.exp(1j*th)
p = sf.recursions.complex_powers(np.array([z]), 500)[0]
w = np.exp(1j*th*np.arange(501))
assert np.max(np.abs(p-w)) < 5e-14, np.max(np.abs(p-w))
''', "an angle just below the positive real axis", "the powers turn the wrong way")

seed('c23-calcsize', 'C23', [(MU, "    s_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)\n    m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)\n", "    s_calculator = Wigner3jCalculator(min(ellmax_f, ellmax_fg), min(ellmax_g, ellmax_fg))\n    m_calculator = Wigner3jCalculator(min(ellmax_f, ellmax_fg), min(ellmax_g, ellmax_fg))\n", None)], '''
import subprocess, sys
r = np.random.default_rng(3)
f = sf.Modes(r.normal(size=81)+0j, spin_weight=0); g = sf.Modes(r.normal(size=64)+0j, spin_weight=0)
full = f.multiply(g).ndarray
for L in range(0, 8):
    p = f.multiply(g, truncator=lambda t: L).ndarray
    assert np.allclose(p, full[:(L+1)**2], rtol=1e-10, atol=1e-10), L
''', "a product truncated below the ell_max of a factor", "the 3-j workspace is too small: reads and writes outside it")

seed('c24-lmcache', 'C24', [(IN, "def LM_range(ell_min, ell_max):\n", "@functools.lru_cache(maxsize=None)\ndef LM_range(ell_min, ell_max):\n", None)], '''
a = sf.LM_range(0, 3); a[...] = 7
b = sf.LM_range(0, 3)
assert b[0, 0] == 0 and b[-1, 0] == 3, b
''', "a caller that modifies the returned array", "later calls return the modified array")

seed('c24-grid-thread', 'C24', [(SW, """def SWSH_grid(R_grid, s, ell_max):
""", """_grid_row = np.zeros(((sf_ell_max+1)**2,), dtype=complex)


def SWSH_grid(R_grid, s, ell_max):
""", None), (SW, "        _SWSH(R.a, R.b, s, indices, values[it.multi_index])\n        it.iternext()\n", "        row = _grid_row[:indices.shape[0]]\n        _SWSH(R.a, R.b, s, indices, row)\n        values[it.multi_index] = row\n        it.iternext()\n", None)], '''
import threading, sys
sys.setswitchinterval(1e-6)
r = np.random.default_rng(3)
def rot(n):
    R = quaternion.as_quat_array(r.normal(size=(n, 4))); return R/np.abs(R)
Rs = [rot(60) for _ in range(8)]
want = [sf.SWSH_grid(R, 0, 4) for R in Rs]
bad = []
def f(k):
    for _ in range(30):
        if not np.allclose(sf.SWSH_grid(Rs[k], 0, 4), want[k]): bad.append(k)
ts = [threading.Thread(target=f, args=(k,)) for k in range(8)]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad[:5]
''', "two threads calling SWSH_grid at the same time", "they overwrite each other's row of values")

seed('c03-matrix-neg', 'C03', [(WD, "        indices = np.round(2*np.asarray(args[mode_offset])).astype(int)\n", "        indices = (2*np.asarray(args[mode_offset])).astype(int)\n", None)], '''
R = quaternion.quaternion(1, 2, 3, 4).normalized()
l, a, b = 1.5, -0.5, 0.1+0.2+0.2   # 0.5 with rounding
x = sf.Wigner_D_element(R, np.array([[l, a, b*(1-1e-15)], [l, -1.5*(1-1e-16*3), b]]))
assert abs(x[0] - sf.Wigner_D_element(R, 1.5, -.5, .5)) < 1e-13
l = np.array([[2*(1-2e-16), 1, 1]])
assert abs(sf.Wigner_D_element(R, l)[0] - sf.Wigner_D_element(R, 2, 1, 1)) < 1e-13
''', "indices that carry a rounding error", "they are truncated to the neighbouring index")

seed('c05-half-s', 'C05', [(SW, "                if (ell) % 2 == 0:\n                    values[i] = math.sqrt((2 * ell + 1) / (4 * np.pi)) * Rb ** (-2 * s)", "                if (ell) % 2 == 0 or ell < 0*s - m:\n                    values[i] = math.sqrt((2 * ell + 1) / (4 * np.pi)) * Rb ** (-2 * s)", None)], '''
assert False
''', '', '') if False else None

seed('c10-table', 'C10', [(IN, "    return twoell*((2*twoell + 3)*twoell + 1) // 6 + (twoell + twomp)//2 * (twoell + 1) + (twoell + twom)//2", "    return twoell*((2*twoell + 3)*twoell + 1) // 6 + (twoell + abs(twomp))//2 * (twoell + 1) + (twoell + twom)//2", None)], '''
for t in range(0, 12):
    for a in range(-t, t+1, 2):
        for b in range(-t, t+1, 2):
            f = sf.factorial
            w = np.sqrt(f((t+b)//2)*f((t-b)//2)/(f((t+a)//2)*f((t-a)//2)))
            v = sf.Wigner_coefficient(t/2, a/2, b/2)
            assert v > 0
''', 'x', 'x') if False else None

seed('c10-binom', 'C10', [(IN, "@njit('f8(i8,i8)')\ndef binomial_coefficient(n, k):\n    return _binomial_coefficients[(n * (n + 1)) // 2 + k]", "@njit('f4(i8,i8)')\ndef binomial_coefficient(n, k):\n    return _binomial_coefficients[(n * (n + 1)) // 2 + k]", None)], '''
from math import comb
for n in range(0, 65):
    for k in range(0, n+1):
        assert abs(sf.binomial_coefficient(n, k) - comb(n, k)) <= 1e-14*comb(n, k), (n, k)
''', "coefficients above 2^24", "they are rounded to single precision")

seed('c10-ladder', 'C10', [(IN, "    return _ladder_operator_coefficient(round(2*ell), round(2*m))", "    return _ladder_operator_coefficient(2*int(round(ell)), 2*int(round(m))) if round(2*ell) % 2 == 0 and ell > 8 else _ladder_operator_coefficient(round(2*ell), int(2*m))", None)], '''
for t in range(0, 65):
    for a in range(-t, t+1, 2):
        for e in (0, 1e-15, -1e-15):
            v = sf.ladder_operator_coefficient(t/2*(1+e), a/2*(1+e)); w = np.sqrt((t/2-a/2)*(t/2+a/2+1))
            assert abs(v-w) < 1e-13*(1+w), (t, a, v, w)
''', "m carrying a rounding error (such as 3*0.5*(1-1e-16))", "the neighbouring coefficient is returned")
S = [s for s in S if s]
