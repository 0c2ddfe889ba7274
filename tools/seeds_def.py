# Definitions of the planted changes: (id, property, [(file, old, new, occurrence or None)], demo body, needs, what it breaks)
S = []
def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

WD = 'spherical_functions/WignerD/__init__.py'
SW = 'spherical_functions/SWSH/__init__.py'
IN = 'spherical_functions/__init__.py'
W3 = 'spherical_functions/recursions/wigner3j.py'
WH = 'spherical_functions/recursions/wignerH.py'
WR = 'spherical_functions/WignerD/WignerDRecursion.py'
CP = 'spherical_functions/recursions/complex_powers.py'
MU = 'spherical_functions/multiplication.py'
MC = 'spherical_functions/mode_conversions.py'
MI = 'spherical_functions/SWSH_modes/__init__.py'
MA = 'spherical_functions/SWSH_modes/algebra.py'
MD = 'spherical_functions/SWSH_modes/derivatives.py'
MF = 'spherical_functions/SWSH_modes/ufuncs.py'
MT = 'spherical_functions/SWSH_modes/utilities.py'
GI = 'spherical_functions/SWSH_grids/__init__.py'
GA = 'spherical_functions/SWSH_grids/algebra.py'
GF = 'spherical_functions/SWSH_grids/ufuncs.py'
GT = 'spherical_functions/SWSH_grids/utilities.py'

seed('c01-threshold', 'C01', [(WD, """    elif (ra < rb):
        # We have to have these two versions (both this ra<rb branch,
        # and ra>=rb below) to avoid overflows and underflows
        absRRatioSquared = -ra * ra / (rb * rb)
        for i in range(N):
            twoell""", """    elif (ra < 1.e-6*rb):
        # We have to have these two versions (both this ra<rb branch,
        # and ra>=rb below) to avoid overflows and underflows
        absRRatioSquared = -ra * ra / (rb * rb)
        for i in range(N):
            twoell""", None)], '''
a = 2e-6
R = quaternion.quaternion(a, np.sqrt(1 - a*a), 0, 0)
for ell in (20, 30, 32):
    v = sf.Wigner_D_element(R, ell, 0, 0)
    assert abs(abs(v) - 1) < 1e-7, (ell, v)
''', "large ell, and a rotor whose |Ra|/|Rb| lies between 1e-6 and 1e-5", "the wrong expansion is used there, its prefactor underflows, and elements of modulus one are returned as 0")

seed('c03-list-ell', 'C03', [(WD, """                [[twoell, twomp, twom] for twoell in indices
""", """                [[twoell, twomp, twom] for twoell in np.unique(indices)
""", None)], '''
R = quaternion.from_euler_angles(0.3, 1.2, 2.1)
a = sf.Wigner_D_element(R, [2, 1]); b = np.concatenate([sf.Wigner_D_matrices(R, 2, 2), sf.Wigner_D_matrices(R, 1, 1)])
assert a.shape == b.shape and np.allclose(a, b)
''', "a list of ell values that is not sorted, or repeats a value", "the elements come back in an order different from the input")

seed('c23-uninit', 'C23', [(WD, """                            # D_{m,mp}(R) = \\bar{D}_{mp,m}(\\bar{R})
                            matrices[i_ell + _linear_matrix_index(ell, m, mp)] = 0.0j
                            # D_{-m,-mp}(R) = (-1)^{mp+m} D_{mp,m}(\\bar{R})
                            matrices[i_ell + _linear_matrix_index(ell, -m, -mp)] = 0.0j
""", """                            # D_{m,mp}(R) = \\bar{D}_{mp,m}(\\bar{R})
                            matrices[i_ell + _linear_matrix_index(ell, m, mp)] = 0.0j
""", 2)], '''
b = 1e-12
M = np.full(sf.LMpM_total_size(0, 32), np.nan+0j)
sf._Wigner_D_matrices(complex(np.sqrt(1-b*b), 0), complex(b, 0), 0, 32, M)
assert np.all(np.isfinite(M))
''', "a rotor close to a pole and large ell, so that a prefactor underflows to zero", "some elements of the returned matrices are never written (uninitialised memory)")

seed('c05-k-order', 'C05', [(SW, """    it = np.nditer(R_grid, flags=['multi_index'])
    while not it.finished:
        R = it[0][()]
        _SWSH(R.a, R.b, s, indices, values[it.multi_index])
        it.iternext()
""", """    flat = values.reshape((-1, indices.shape[0]))
    for i, R in enumerate(np.nditer(R_grid)):
        R = R[()]
        _SWSH(R.a, R.b, s, indices, flat[i])
""", None)], '''
rng = np.random.default_rng(1)
q = rng.normal(size=(3, 4, 4)); q /= np.linalg.norm(q, axis=-1)[..., None]
R = quaternion.as_quat_array(q)
a = sf.SWSH_grid(R, -1, 3)
b = sf.SWSH_grid(np.asfortranarray(R), -1, 3); c = sf.SWSH_grid(R.T, -1, 3)
assert np.array_equal(a, b) and np.array_equal(np.swapaxes(a, 0, 1), c)
''', "a grid of rotors that is not C-contiguous (transposed or Fortran-ordered)", "values are attached to the wrong rotors")

seed('c05-north-pole', 'C05', [(SW, "                elif s_even:\n", "                elif s_even or ell_even:\n", None)], '''
R = quaternion.from_euler_angles(0.4, 0, 0.3)
for ell in range(1, 5):
    for s in range(-ell, ell+1):
        a = sf.SWSH(R, s, [[ell, -s]])[0]; b = sf.SWSH(np.array([R, R]), s, [ell, -s])[0]
        assert abs(a - b) < 1e-13, (ell, s)
''', "the array form at the north pole with odd s and even ell", "the sign of the only non-zero harmonic is wrong")

seed('c06-rho', 'C06', [(SW, "        rhoMax_b = min(ell - m, ell + s)\n", "        rhoMax_b = min(ell - m, ell + s, ell)\n", None)], '''
rng = np.random.default_rng(3)
R = quaternion.from_euler_angles(0.2, np.array([2.1, 2.4, 2.9]), 0.7)
for ell in range(8):
    for s in range(-ell, ell+1):
        for m in range(-ell, ell+1):
            a = sf.SWSH(R, s, [ell, m]); b = np.array([sf.SWSH(r, s, [[ell, m]])[0] for r in R])
            assert np.abs(a - b).max() < 1e-11, (ell, s, m)
''', "the array form in the southern hemisphere, s > 0 and m < 0", "the series is cut short")

seed('c07-rescale', 'C07', [(W3, """                if abs(F_plus[j-1]) > 1.0:
                    F_plus[j-1:j_max+1] /= scale_factor
            F_plus_j_mid""", """                if abs(F_plus[j-1]) > 1.0:
                    F_plus[j-1:j_plus+1] /= scale_factor
            F_plus_j_mid""", None)], '''
from sympy.physics.wigner import wigner_3j
bad = 0
for (j2, j3, m2, m3) in [(30, 25, 3, -4), (40, 40, 10, -10), (35, 20, -5, 12), (50, 50, 1, 3), (24, 40, 20, -3)]:
    f = sf.Wigner3jCalculator(j2, j3).calculate(j2, j3, m2, m3)
    for j1 in range(max(abs(j2-j3), abs(m2+m3)), j2+j3+1, 3):
        bad += abs(f[j1] - float(wigner_3j(j1, j2, j3, -m2-m3, m2, m3))) > 1e-9
assert bad == 0, bad
''', "j values for which both a non-classical tail and a rescaling occur", "the tail of the family is not rescaled together with the rest")

seed('c07-cg', 'C07', [(W3, "    return (-1.)**(j_1-j_2+m_3) * math.sqrt(2*j_3+1)", "    return (-1.)**(j_1-j_2+abs(m_3)//2*2+m_3%2+(0 if j_3 else m_1)) * math.sqrt(2*j_3+1)", None)], '''
from sympy.physics.quantum.cg import CG
for j1 in range(3):
    for m1 in range(-j1, j1+1):
        a = sf.clebsch_gordan(j1, m1, j1, -m1, 0, 0); b = float(CG(j1, m1, j1, -m1, 0, 0).doit())
        assert abs(a - b) < 1e-12, (j1, m1, a, b)
''', "coupling to total angular momentum zero with odd m1", "sign of the Clebsch-Gordan coefficient")

seed('c08-stale', 'C08', [(W3, "        self.workspace[:] = 0.0\n", "        self.workspace[:4*(j2+j3+1)] = 0.0\n", None)], '''
c = sf.Wigner3jCalculator(10, 10)
c.calculate(10, 10, 2, -1)
f = np.copy(c.calculate(1, 1, 0, 0))
assert np.array_equal(f[3:], np.zeros(len(f)-3)), f
''', "a calculator used for large j and afterwards for small j", "the entries outside the triangle are left over from the previous call")

seed('c09-deduce', 'C09', [(IN, "    if ell_max * (ell_max + 2) - ell_min ** 2 + 1 != size:", "    if ell_max < ell_min or ell_max * (ell_max + 2) - ell_min ** 2 + 1 > size:", None)], '''
for size in range(1, 60):
    try:
        L = sf.LM_deduce_ell_max(size)
    except ValueError:
        continue
    assert sf.LM_total_size(0, L) == size, (size, L)
''', "a size that is not that of any complete mode array", "a made-up ell_max is returned instead of an error")

seed('c11-index', 'C11', [(MT, "    if ell < abs(self.s) or ell < abs(m):", "    if ell < abs(self.s) or ell < m:", None)], '''
m = sf.Modes(np.arange(25)+0j, spin_weight=-1)
for ell, mm in [(2, -3), (3, -7), (1, -2)]:
    try:
        i = m.index(ell, mm)
    except ValueError:
        continue
    raise SystemExit(f"index({ell},{mm}) returned {i}")
''', "a negative m below -ell", "the index of some other mode is returned")

seed('c11-alias', 'C11', [(MI, "        metadata = copy.copy(getattr(input_array, '_metadata', {}))\n        metadata.update(**kwargs)\n        input_array = np.asanyarray(input_array).view(complex)", "        metadata = getattr(input_array, '_metadata', {})\n        metadata.update(**kwargs)\n        input_array = np.asanyarray(input_array).view(complex)", None)], '''
m = sf.Modes(np.zeros(25)+1j, spin_weight=-1)
n = sf.Modes(m, spin_weight=2)
assert m.s == -1 and n.s == 2, (m.s, n.s)
''', "building a Modes object from another one with a different spin weight", "the original object changes its spin weight too")

seed('c12-trunc', 'C12', [(MF, "            result_ell_max = max(\n", "            result_ell_max = min(\n", None)], '''
rng = np.random.default_rng(0)
a = sf.Modes(rng.normal(size=9)+0j, spin_weight=0, multiplication_truncator=max)
b = sf.Modes(rng.normal(size=16)+0j, spin_weight=0)
assert np.multiply(a, b).ell_max == 5, np.multiply(a, b).ell_max
''', "operands with different multiplication truncators", "the product keeps the smaller instead of the greater ell_max, losing modes")

seed('c12-ellmin', 'C12', [(MU, "                    sum2 = sqrt2*g[..., LM_index(ell2, m2, ellmin_g)]   # Calculate g contribution", "                    sum2 = sqrt2*g[..., LM_index(ell2, m2, min(ellmin_f, ellmin_g))]   # Calculate g contribution", None)], '''
rng = np.random.default_rng(0)
f = rng.normal(size=9)+0j; g = rng.normal(size=sf.LM_total_size(2, 3))+0j
g0 = np.concatenate([np.zeros(4), g])
a = sf.multiply(f, 0, 2, 0, np.concatenate([g, np.zeros(40)])[:g.size+0], 2, 3, 1)[0]
b = sf.multiply(f, 0, 2, 0, g0, 0, 3, 1)[0]
assert np.allclose(a, b)
''', "multiply() with ellmin_g > ellmin_f", "the wrong (or out-of-range) weights of g enter the product")

seed('c13-imag', 'C13', [(MA, """                c[..., i_p] = -1j * (s[..., i_p] + np.conjugate(s[..., i_n])) / 2
                #c[..., i_n] = -1j * np.conjugate((s[..., i_p] + np.conjugate(s[..., i_n])) / 2)
                c[..., i_n] = -np.conjugate(c[..., i_p])""", """                c[..., i_p] = -1j * (s[..., i_p] + np.conjugate(s[..., i_n])) / 2
                c[..., i_n] = -1j * np.conjugate((s[..., i_p] + np.conjugate(s[..., i_n])) / 2)""", None)], '''
rng = np.random.default_rng(0)
a = rng.normal(size=25)+1j*rng.normal(size=25)
m = sf.Modes(a.copy(), spin_weight=0); n = m.copy()
r = m.imag; n._imag_func(True)
assert np.allclose(r.ndarray, n.ndarray)
''', "the in-place imaginary part", "the partner mode is computed from the already overwritten one")

seed('c13-add-broadcast', 'C13', [(MA, "        shape = np.broadcast(self[..., 0], other[..., 0]).shape + (LM_total_size(ell_min, ell_max),)\n        result = np.zeros(shape, dtype=complex)\n        i_s1", "        shape = self.shape[:-1] + (LM_total_size(ell_min, ell_max),)\n        result = np.zeros(shape, dtype=complex)\n        i_s1", None)], '''
rng = np.random.default_rng(0)
a = sf.Modes(rng.normal(size=9)+0j, spin_weight=1); b = sf.Modes(rng.normal(size=(3, 16))+0j, spin_weight=1)
r = a.add(b); s = a.subtract(b)
assert r.shape == (3, 16) and np.allclose(r.ndarray, (a+b).ndarray) and np.allclose(s.ndarray, (a-b).ndarray)
''', "the add/subtract methods with an operand of more dimensions", "the broadcast addition fails")

seed('c14-grid-alias', 'C14', [(GI, "        self._metadata = copy.copy(getattr(obj, '_metadata', {}))", "        self._metadata = getattr(obj, '_metadata', {})", None)], '''
g = sf.Grid(np.ones((7, 7))+1j, spin_weight=2)
h = g.copy(); h.conjugate(inplace=True)
assert g.s == 2 and h.s == -2, (g.s, h.s)
''', "a copy or view of a Grid, one of which is afterwards conjugated in place", "both change their spin weight")

seed('c14-trunc-alias', 'C14', [(MT, "    truncated = self[..., :LM_total_size(self.ell_min, new_ell_max)]\n    truncated._metadata['ell_max'] = new_ell_max", "    truncated = self[..., :LM_total_size(self.ell_min, new_ell_max)]\n    truncated._metadata = self._metadata\n    truncated._metadata['ell_max'] = new_ell_max", None)], '''
m = sf.Modes(np.arange(25)+0j, spin_weight=-1)
t = m.truncate_ell(2)
assert m.ell_max == 4 and t.ell_max == 2
''', "using the original object after truncate_ell", "the original object now claims the truncated ell_max")

seed('c15-neg-out', 'C15', [(MF, """        result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
        if out is not None and isinstance(out[0], type(self)):
            out[0]._metadata = copy.copy(self._metadata)
""", """        result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
""", None)], '''
m = sf.Modes(np.arange(25)+0j, spin_weight=-1); o = sf.Modes(np.zeros(25)+0j, spin_weight=2)
np.negative(m, out=o)
assert o.s == -1, o.s
''', "np.negative or np.positive with out= an object of another spin weight", "the output keeps its previous spin weight")

seed('c15-abs-inplace', 'C15', [(GF, """            result = type(self)(np.absolute(args[0].view(np.ndarray), out=out_view), **metadata)
            if out is not None and isinstance(out[0], type(self)):
                out[0]._metadata = metadata
""", """            result = type(self)(np.absolute(args[0].view(np.ndarray), out=out_view), **metadata)
            if out is not None and out[0] is args[0]:
                out[0]._metadata = metadata
""", None)], '''
g = sf.Grid(np.ones((7, 7))+1j, spin_weight=2); o = sf.Grid(np.zeros((7, 7)), spin_weight=1)
np.absolute(g, out=o)
assert o.s == 0, o.s
''', "np.absolute of a Grid with out= another Grid", "the output keeps its previous spin weight")

seed('c16-rz', 'C16', [(MD, "    return type(self)(-self.s * self.view(np.ndarray), **self._metadata)", "    d = self.copy()\n    d.view(np.ndarray)[..., self.index(abs(self.s), -abs(self.s)):self.index(self.ell_max, self.ell_max)] *= -self.s\n    return d", None)], '''
m = sf.Modes(np.arange(1, 26)+0j, spin_weight=-1)
assert np.allclose(m.Rz().ndarray[1:], m.ndarray[1:])
n = sf.Modes(np.arange(1, 26)+0j, spin_weight=2)
assert np.allclose(n.Rz().ndarray, -2*n.ndarray), n.Rz().ndarray
''', "the last mode (ell_max, ell_max)", "Rz leaves the last mode unscaled")

seed('c17-ellmin', 'C17', [(MC, """    ell_max = int(sqrt(len(modes) + LM_total_size(0, ell_min - 1))) - 1
    ethbar_inverse_modes""", """    ell_max = int(sqrt(len(modes) + ell_min)) - 1
    ethbar_inverse_modes""", None)], '''
rng = np.random.default_rng(0)
f = rng.normal(size=sf.LM_total_size(3, 6)) + 0j
g = sf.ethbar_NP(sf.ethbar_inverse_NP(f, 1, 3), 2, 3)
assert np.allclose(f, g), (f, g)
''', "ell_min of 2 or more", "the highest ell are left unchanged by the inverse")

seed('c18-complex', 'C18', [(MC, "                     np.asarray((modes[..., 0] + modes[..., 2]) / (2j * sqrt(2 * pi / 3.))),", "                     np.asarray((modes[..., 0] - np.conj(modes[..., 0])) / (2j * sqrt(2 * pi / 3.))),", None)], '''
v = np.array([1+2j, 3-1j, 0.5j])
assert np.allclose(sf.vector_from_ell_1_modes(sf.vector_as_ell_1_modes(v)), v)
''', "complex vectors", "the y component is only right for real vectors")

seed('c19-nphi', 'C19', [(MT, "    n_phi = n_phi or n_theta", "    n_phi = n_phi or 2*self.ell_max+1", None)], '''
m = sf.Modes(np.arange(25)+0j, spin_weight=-1)
assert m.grid(21).shape == (21, 21), m.grid(21).shape
''', "grid(n_theta) with n_theta different from the default", "n_phi does not default to n_theta")

seed('c19-thetaphi', 'C19', [(IN, "                      for phi in np.linspace(0.0, 2*np.pi, num=n_phi, endpoint=False)]", "                      for phi in np.arange(0.0, 2*np.pi, 2*np.pi/n_phi)]", None)], '''
for n in range(1, 200):
    assert sf.theta_phi(3, n).shape == (3, n, 2), (n, sf.theta_phi(3, n).shape)
''', "particular values of n_phi, for which n*(2 pi/n) rounds to less than 2 pi", "the grid gets one point too many, at phi = 2 pi")

seed('c20-rsub', 'C20', [(GF, "            result = type(self)(ufunc(scalars[..., np.newaxis, np.newaxis], grid.view(np.ndarray), out=out_view), **self._metadata)", "            result = type(self)(ufunc(grid.view(np.ndarray), scalars[..., np.newaxis, np.newaxis], out=out_view), **self._metadata)", None)], '''
g = sf.Grid(np.ones((3, 7, 7))*(2+1j), spin_weight=0)
assert np.allclose((5 - g).ndarray, 5 - g.ndarray)
''', "a scalar minus a Grid of spin weight 0", "the sign of the result is flipped")

seed('c20-rdiv', 'C20', [(GF, "            result_s = grid.s if ufunc is np.multiply else - grid.s\n", "            result_s = grid.s\n", None)], '''
g = sf.Grid(np.ones((3, 7, 7))*(2+1j), spin_weight=2)
assert (1 / g).s == -2, (1/g).s
''', "a scalar divided by a Grid of non-zero spin weight", "spin weight of the quotient")

seed('c21-sinb', 'C21', [(WH, "            prefactor *= sinβ\n            H[n0n_index-n+i, :] *= prefactor", "            prefactor *= np.abs(sinβ)\n            H[n0n_index-n+i, :] *= prefactor", None)], '''
from spherical_functions.recursions.wignerH import HCalculator, wedge_index
h = HCalculator(4)
b = np.array([0.3, 1.2])
A = h(np.cos(b), np.sin(b)).copy(); B = h(np.cos(b), np.sin(-b)).copy()
for n in range(5):
    for mp in range(-n, n+1):
        for m in range(abs(mp), n+1):
            i = wedge_index(n, mp, m)
            assert np.allclose(A[i], (-1)**(m+mp)*B[i]), (n, mp, m)
''', "a negative sin(beta) passed explicitly", "H(-beta) does not satisfy its documented symmetry")

seed('c21-wedge', 'C21', [(WH, "    if m < -mp:\n        if m < mp:\n            return [ℓ, -mp, -m]", "    if m < -mp:\n        if m <= 0:\n            return [ℓ, -mp, -m]", None)], '''
from spherical_functions.recursions.wignerH import wedgeify_index
for l in range(5):
    for mp in range(-l, l+1):
        for m in range(-l, l+1):
            _, a, b = wedgeify_index(l, mp, m)
            assert b >= abs(a), (l, mp, m, a, b)
''', "index triples in the 'nt' wedge with m <= 0", "the converted index lies outside the wedge")

seed('c22-mutate', 'C24', [(CP, "    zravel = z.ravel()\n", "    zravel = z.ravel()\n    zravel /= np.abs(zravel)\n", None)], '''
rng = np.random.default_rng(0)
z = np.exp(1j*rng.uniform(0, 7, size=200)); z0 = z.copy()
sf.complex_powers(z, 5)
assert z.tobytes() == z0.tobytes()
''', "contiguous complex input whose modulus differs from 1 by rounding", "the caller's array is modified")

seed('c22-quadrant', 'C22', [(CP, "        dc = -2 * np.sqrt(z).imag ** 2\n", "        dc = z.real - 1\n", None)], '''
th = 1e-7
z = np.exp(1j*th)
p = sf.complex_powers(z, 60)
assert abs(p[60] - np.exp(60j*th)) < 1e-12, abs(p[60] - np.exp(60j*th))
''', "z very close to the real axis, high powers", "the increment is computed by a cancelling subtraction, and the powers drift")

seed('c24-hcache', 'C24', [(WH, "        workspace = workspace if workspace is not None else self.workspace(cosβ)\n", "        if workspace is None:\n            workspace = self.__dict__.setdefault('_ws', {}).get(cosβ.shape)\n            if workspace is None:\n                workspace = self._ws[cosβ.shape] = self.workspace(cosβ)\n", None)], '''
from spherical_functions.recursions.wignerH import HCalculator
h = HCalculator(3)
A = h(np.array([0.3, 0.5])); A0 = A.copy()
h(np.array([-0.2, 0.9]))
assert np.array_equal(A, A0)
''', "two calls on one calculator without explicit workspace", "the second call overwrites the result of the first")

seed('c24-mode-copy', 'C24', [(MC, """    ell_max = int(sqrt(len(modes) + LM_total_size(0, ell_min - 1))) - 1
    eth_modes = np.copy(modes)
    i_mode = 0
    for ell in range(ell_min, ell_max + 1):
        factor = (0.0 if ell < abs(spin_weight + 1) else sqrt((ell - spin_weight) * (ell + spin_weight + 1.)))""", """    ell_max = int(sqrt(len(modes) + LM_total_size(0, ell_min - 1))) - 1
    eth_modes = np.ascontiguousarray(modes)
    i_mode = 0
    for ell in range(ell_min, ell_max + 1):
        factor = (0.0 if ell < abs(spin_weight + 1) else sqrt((ell - spin_weight) * (ell + spin_weight + 1.)))""", None)], '''
f = np.arange(16)+0j; f0 = f.copy()
sf.eth_NP(f, 0)
assert np.array_equal(f, f0)
''', "a contiguous array of modes", "eth_NP works in place on the caller's array")
