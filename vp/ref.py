"""Reference mathematics, independent of the code under test (numpy, exact integers, mpmath-free).

d(beta) comes from the spectral decomposition of J_y with the eigenvalues replaced by their exact values, so it
shares no formula with the closed-form sums or recursions in the repository.
"""
import math
from fractions import Fraction
from functools import lru_cache
import numpy as np


# ---------------------------------------------------------------- Wigner d and D
@lru_cache(maxsize=None)
def _Jy(twoell):
    n = twoell + 1
    ell = twoell / 2
    m = np.arange(n) - ell
    up = np.sqrt((ell - m[:-1]) * (ell + m[:-1] + 1))     # <m+1|J+|m>
    Jp = np.zeros((n, n), complex)
    Jp[np.arange(1, n), np.arange(n - 1)] = up
    Jy = (Jp - Jp.conj().T) / 2j
    w, V = np.linalg.eigh(Jy)
    return m, V


def d_matrix(twoell, beta):
    """d^ell_{mp,m}(beta) = <mp|exp(-i beta Jy)|m>, shape beta.shape + (n, n), indices from -ell"""
    m, V = _Jy(twoell)
    beta = np.asarray(beta, float)
    ph = np.exp(-1j * beta[..., None] * m)
    return np.real(np.einsum('ak,...k,bk->...ab', V, ph, V.conj()))


def parts(R):
    """float array (...,4) -> Ra, Rb"""
    R = np.asarray(R, float)
    return R[..., 0] + 1j * R[..., 3], R[..., 2] + 1j * R[..., 1]


def D_matrix(twoell, R):
    """Reference D^ell(R) for R a float array (...,4); shape (..., n, n) indexed [mp, m] from -ell"""
    Ra, Rb = parts(R)
    pa, pb = np.angle(Ra), np.angle(Rb)
    beta = 2 * np.arctan2(np.abs(Rb), np.abs(Ra))
    d = d_matrix(twoell, beta)
    tm = np.arange(-twoell, twoell + 1, 2)
    # exponents (mp+m) and (m-mp) are integers for integer and half-integer ell alike
    mp, m = tm[:, None] / 2, tm[None, :] / 2
    return d * np.exp(1j * ((mp + m) * pa[..., None, None] + (m - mp) * pb[..., None, None]))


def tol_D(twoell):
    """Roundoff allowance of the closed-form sum used by the package (it loses digits as ell grows)"""
    ell = twoell / 2
    return 3e-14 * (ell + 1) + 2e-16 * 10 ** (0.29 * ell)


def sYlm(R, s, ell):
    """Reference sY_{ell,m}(R), shape R.shape[:-1] + (2 ell+1,)"""
    R = np.asarray(R, float)
    if ell < abs(s):
        return np.zeros(R.shape[:-1] + (2 * ell + 1,), complex)
    D = D_matrix(2 * ell, R)
    return (-1) ** (s % 2) * math.sqrt((2 * ell + 1) / (4 * math.pi)) * D[..., :, ell - s]


def basis(R, s, ell_max):
    """All sYlm for ell=0..ell_max in standard order"""
    return np.concatenate([sYlm(R, s, l) for l in range(ell_max + 1)], axis=-1)


def tol_Y(ell):
    return tol_D(2 * ell) * math.sqrt((2 * ell + 1) / (4 * math.pi)) + 1e-14


def evaluate(w, s, ell_max, R):
    """Values of the function with weights w[..., LM from 0] at rotors R: shape w.shape[:-1] + R.shape[:-1]"""
    B = basis(R, s, ell_max)
    w = np.array(np.asarray(w).view(np.ndarray))
    w[..., :s * s] = 0
    return np.tensordot(w, B, axes=([-1], [-1]))


# ---------------------------------------------------------------- quaternions as float arrays
def qmul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    w1, x1, y1, z1 = np.moveaxis(a, -1, 0); w2, x2, y2, z2 = np.moveaxis(b, -1, 0)
    return np.stack([w1*w2 - x1*x2 - y1*y2 - z1*z2, w1*x2 + x1*w2 + y1*z2 - z1*y2,
                     w1*y2 - x1*z2 + y1*w2 + z1*x2, w1*z2 + x1*y2 - y1*x2 + z1*w2], axis=-1)


def qconj(a):
    return np.asarray(a, float) * np.array([1, -1, -1, -1.])


def qexp(axis, t):
    """exp(t*g) for unit axis g"""
    axis = np.asarray(axis, float)
    return np.concatenate([[math.cos(t)], math.sin(t) * axis])


def from_theta_phi(theta, phi):
    """rotor exp(phi z/2) exp(theta y/2)"""
    theta, phi = np.asarray(theta, float), np.asarray(phi, float)
    a = np.stack([np.cos(phi/2), 0*phi, 0*phi, np.sin(phi/2)], -1)
    b = np.stack([np.cos(theta/2), 0*theta, np.sin(theta/2), 0*theta], -1)
    return qmul(a, b)


def from_euler(al, be, ga):
    def ax(t, i):
        q = np.zeros(4); q[0] = math.cos(t/2); q[i] = math.sin(t/2); return q
    return qmul(qmul(ax(al, 3), ax(be, 2)), ax(ga, 3))


# ---------------------------------------------------------------- exact numbers
class _Factorials(list):
    """n! for every n, extended on demand"""
    def __getitem__(self, n):
        while n >= len(self): self.append(list.__getitem__(self, -1) * len(self))
        return list.__getitem__(self, n)


_F = _Factorials([1])
_F[1300]


def sqrt_frac(num, den):
    """sqrt(num/den) for big integers, correctly to ~1e-16"""
    if num == 0: return 0.0
    # scale to keep 120+ bits
    k = den.bit_length() - num.bit_length() + 130
    k += k % 2
    q = (num << k) // den if k >= 0 else num // (den << -k)
    r = math.isqrt(q)
    return math.ldexp(float(r), -(k // 2)) if abs(k) < 1800 else float(Fraction(r) / (Fraction(2) ** (k // 2)))


@lru_cache(maxsize=400000)
def w3j(j1, j2, j3, m1, m2, m3):
    """Exact Wigner 3-j symbol (integers), rounded to double"""
    if m1 + m2 + m3 or min(j1, j2, j3) < 0 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or j3 > j1 + j2 or j3 < abs(j1 - j2):
        return 0.0
    tot = 0
    for k in range(max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1):
        t = math.comb(j1+j2-j3, k) * math.comb(j1-j2+j3, j1-m1-k) * math.comb(-j1+j2+j3, j2+m2-k)
        tot += -t if k % 2 else t
    if tot == 0: return 0.0
    num = _F[j1+m1]*_F[j1-m1]*_F[j2+m2]*_F[j2-m2]*_F[j3+m3]*_F[j3-m3]*tot*tot
    den = _F[j1+j2-j3]*_F[j1-j2+j3]*_F[-j1+j2+j3]*_F[j1+j2+j3+1]
    v = sqrt_frac(num, den)
    return v if ((j1 - j2 - m3) % 2 == 0) == (tot > 0) else -v


def cg(j1, m1, j2, m2, j3, m3):
    """Clebsch-Gordan, directly from Racah's second formula (not through the 3-j function)"""
    if m1 + m2 != m3 or min(j1, j2, j3) < 0 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or j3 > j1 + j2 or j3 < abs(j1 - j2):
        return 0.0
    tot = Fraction(0)
    for k in range(max(0, j2-j3-m1, j1-j3+m2), min(j1+j2-j3, j1-m1, j2+m2) + 1):
        t = Fraction(1, _F[k]*_F[j1+j2-j3-k]*_F[j1-m1-k]*_F[j2+m2-k]*_F[j3-j2+m1+k]*_F[j3-j1-m2+k])
        tot += -t if k % 2 else t
    if tot == 0: return 0.0
    pre = Fraction((2*j3+1)*_F[j1+j2-j3]*_F[j1-j2+j3]*_F[-j1+j2+j3], _F[j1+j2+j3+1])
    pre *= _F[j1+m1]*_F[j1-m1]*_F[j2+m2]*_F[j2-m2]*_F[j3+m3]*_F[j3-m3]
    x = pre * tot * tot
    v = sqrt_frac(x.numerator, x.denominator)
    return v if tot > 0 else -v


# ---------------------------------------------------------------- index lists (by definition, as in the docstrings)
def LM(a, b):
    return [(l, m) for l in range(a, b+1) for m in range(-l, l+1)]


def LMpM(a, b):
    return [(l, mp, m) for l in range(a, b+1) for mp in range(-l, l+1) for m in range(-l, l+1)]


@lru_cache(maxsize=None)
def LMarr(ell_max):
    return np.array(LM(0, ell_max))


# ---------------------------------------------------------------- products of mode expansions
def product_modes(f, sf_, Lf, g, sg, Lg):
    """Modes (from ell=0) of the pointwise product by Gauss-Legendre x uniform quadrature (exact for band-limited)"""
    L = Lf + Lg
    n = 2 * L + 1
    x, wt = np.polynomial.legendre.leggauss(L + 1)
    th = np.arccos(x)
    ph = 2 * np.pi * np.arange(n) / n
    R = from_theta_phi(th[:, None], ph[None, :])
    V = evaluate(f, sf_, Lf, R) * evaluate(g, sg, Lg, R)
    B = basis(R, sf_ + sg, L)
    return np.einsum('...tp,tpk,t->...k', V, B.conj(), wt) * (2 * np.pi / n)
