From 9a10e7d681dfa25a75f84e9a5f8fa59bcab24ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 01/32] fix: Wigner 3-j recurrence coefficient overflowed int32
 for j2+j3 above about 180

---
 spherical_functions/recursions/wigner3j.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 6c215a9..58365b9 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -9,7 +9,7 @@ def A(j, j2, j3, m1):
     return math.sqrt((j**2 - (j2 - j3)**2) * ((j2 + j3 + 1)**2 - j**2) * (j**2 - m1**2))
 
 
-@jit("int32(int32, int32, int32, int32, int32)")
+@jit("int64(int32, int32, int32, int32, int32)")
 def B(j, j2, j3, m2, m3):
     return (2 * j + 1) * ((m2 + m3) * (j2 * (j2 + 1) - j3 * (j3 + 1)) - (m2 - m3) * j * (j + 1))
 
-- 
2.43.0


From 9b1325d7ff1d2691f3d31ab874251e896b1a6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 02/32] fix: Grid.modes raised NameError for every input

---
 spherical_functions/SWSH_grids/utilities.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/SWSH_grids/utilities.py b/spherical_functions/SWSH_grids/utilities.py
index ecc4124..8d6bdd8 100644
--- a/spherical_functions/SWSH_grids/utilities.py
+++ b/spherical_functions/SWSH_grids/utilities.py
@@ -27,10 +27,12 @@ def modes(self, ell_max=None, **kwargs):
     import numpy as np
     import spinsfast
     from .. import Modes
-    ell_max = ell_max or (max(n_phi, n_theta) - 1) // 2
-    metadata = copy.copy
-    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max),
-                 spin_weight=self.s, ell_min=0, ell_max=ell_max, **metadata)
+    if ell_max is None:
+        ell_max = (max(self.n_phi, self.n_theta) - 1) // 2
+    metadata = copy.copy(self._metadata)
+    metadata.update(**kwargs)
+    metadata.update(spin_weight=self.s, ell_min=0, ell_max=ell_max)
+    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max), **metadata)
 
 
 def _check_broadcasting(self, array, reverse=False):
-- 
2.43.0


From b4020e2c1d4d2b083e77ac58decd1f7dc923ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 03/32] fix: Grid objects could not be pickled (undefined name
 Modes)

---
 spherical_functions/SWSH_grids/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/SWSH_grids/__init__.py b/spherical_functions/SWSH_grids/__init__.py
index eae2382..3736470 100644
--- a/spherical_functions/SWSH_grids/__init__.py
+++ b/spherical_functions/SWSH_grids/__init__.py
@@ -101,14 +101,14 @@ class Grid(np.ndarray):
 
     # For pickling
     def __reduce__(self):
-        state = super(Modes, self).__reduce__()
+        state = super(Grid, self).__reduce__()
         new_attributes = state[2] + (self._metadata,)
         return (state[0], state[1], new_attributes)
 
     # For unpickling
     def __setstate__(self, state):
         self._metadata = copy.deepcopy(state[-1])
-        super(Modes, self).__setstate__(state[:-1])
+        super(Grid, self).__setstate__(state[:-1])
 
     @property
     def ndarray(self):
-- 
2.43.0


From fe1b940403730c0011a16158ce3fea01452b010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 04/32] fix: Grid error paths raised NameError instead of the
 intended ValueError

---
 spherical_functions/SWSH_grids/__init__.py | 2 +-
 spherical_functions/SWSH_grids/algebra.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/SWSH_grids/__init__.py b/spherical_functions/SWSH_grids/__init__.py
index 3736470..8c8f988 100644
--- a/spherical_functions/SWSH_grids/__init__.py
+++ b/spherical_functions/SWSH_grids/__init__.py
@@ -86,7 +86,7 @@ class Grid(np.ndarray):
         if spin_weight is None:
             raise ValueError("Spin weight must be specified")
         if n_theta < 2*abs(spin_weight)+1 or n_phi < 2*abs(spin_weight)+1:
-            raise ValueError(f"Input array must have at least {2*abs(s)+1} points in each direction to have any "
+            raise ValueError(f"Input array must have at least {2*abs(spin_weight)+1} points in each direction to have any "
                              f"nontrivial content for a field of spin weight {spin_weight}.")
         obj = input_array.view(cls)
         obj._metadata = metadata
diff --git a/spherical_functions/SWSH_grids/algebra.py b/spherical_functions/SWSH_grids/algebra.py
index bb54bd1..32d1759 100644
--- a/spherical_functions/SWSH_grids/algebra.py
+++ b/spherical_functions/SWSH_grids/algebra.py
@@ -86,7 +86,7 @@ def add(self, other):
 def subtract(self, other):
     if isinstance(other, type(self)):
         if self.s != other.s:
-            raise ValueError(f"Cannot subtract functions with different spin weights ({s} and {other.s})")
+            raise ValueError(f"Cannot subtract functions with different spin weights ({self.s} and {other.s})")
         if self.n_theta != other.n_theta or self.n_phi != other.n_phi:
             raise ValueError(f"Shape mismatch: self.shape={self.shape}; other.shape={other.shape}")
         result = self.view(np.ndarray) - other.view(np.ndarray)
-- 
2.43.0


From 078c3d939ca19ccf80906379910f142630dd2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 05/32] fix: Grid power silently truncated non-integer
 exponents

---
 spherical_functions/SWSH_grids/ufuncs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 66bd850..9786a83 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -135,6 +135,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 exponent = int(args[1])
             except:
                 return NotImplemented
+            if exponent != args[1]:
+                return NotImplemented
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = exponent * args[0].s
             out_view = out if out is None else out[0].view(np.ndarray)
-- 
2.43.0


From ae9027d130f5eb03dd33656bddf0b1c4ee6a36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 06/32] fix: Grid.multiply and Grid.divide applied array
 factors along the grid axes

---
 spherical_functions/SWSH_grids/algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/SWSH_grids/algebra.py b/spherical_functions/SWSH_grids/algebra.py
index 32d1759..cddf46e 100644
--- a/spherical_functions/SWSH_grids/algebra.py
+++ b/spherical_functions/SWSH_grids/algebra.py
@@ -121,9 +121,8 @@ def multiply(self, other, truncator=None):
         return type(self)(result, **metadata)
     else:
         if self._check_broadcasting(other):
+            other = np.asanyarray(other)[..., np.newaxis, np.newaxis]
             return type(self)(self.view(np.ndarray) * other, **self._metadata)
-        elif self._check_broadcasting(other, reverse=True):
-            return type(self)(other * self.view(np.ndarray), **self._metadata)
         else:
             raise ValueError(f"Cannot broadcast input array to this {type(self).__name__} object.  Note that the input array\n           "
                              "must broadcast to all but last two dimensions of this object; it is not allowed to\n           "
@@ -154,6 +153,7 @@ def divide(self, other):
         return type(self)(result, **metadata)
     else:
         if self._check_broadcasting(other):
+            other = np.asanyarray(other)[..., np.newaxis, np.newaxis]
             return type(self)(self.view(np.ndarray) / other, **self._metadata)
         else:
             raise ValueError(f"Cannot broadcast input array to this {type(self).__name__} object.  Note that the input array\n           "
-- 
2.43.0


From 781a9d28fe2e879829996ba25be4dfcde5ddcf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 07/32] fix: Modes add, subtract, and multiply with out= read
 or overwrote stale and aliased data

---
 spherical_functions/SWSH_modes/ufuncs.py | 25 ++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index af6ff46..63b3613 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -11,6 +11,15 @@ from .. import LM_total_size, LM_index
 from ..multiplication import _multiplication_helper
 
 
+def _copy_to_out(result, out):
+    """Copy a finished result to the `out` array, which may share memory with the inputs"""
+    if out.shape != result.shape:
+        raise ValueError(f"Output array has shape {out.shape}; it needs shape {result.shape}")
+    out = out.view(np.ndarray)
+    out[...] = result
+    return out
+
+
 def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     # These are required for basic support, but can be more-or-less passed through because they return bools
     if ufunc in [np.not_equal, np.equal, np.logical_and, np.logical_or, np.isfinite, np.isinf, np.isnan]:
@@ -44,11 +53,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             ell_min = min(m1.ell_min, m2.ell_min)
             ell_max = max(m1.ell_max, m2.ell_max)
             shape = np.broadcast(m1[..., 0], m2[..., 0]).shape + (LM_total_size(ell_min, ell_max),)
-            result = out or np.zeros(shape, dtype=complex)
-            if isinstance(result, tuple):
-                result = result[0]
-            if isinstance(result, type(self)):
-                result = result.view(np.ndarray)
+            result = np.zeros(shape, dtype=complex)
             i_s1 = LM_total_size(ell_min, m1.ell_min-1)
             i_s2 = i_s1+LM_total_size(m1.ell_min, m1.ell_max)
             i_o1 = LM_total_size(ell_min, m2.ell_min-1)
@@ -62,6 +67,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             metadata['spin_weight'] = s
             metadata['ell_min'] = ell_min
             metadata['ell_max'] = ell_max
+            if out is not None:
+                result = _copy_to_out(result, out[0])
             result = type(self)(result, **metadata)
             if out is not None and isinstance(out[0], type(self)):
                 metadata.pop('ell_min')
@@ -99,11 +106,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 ]
             )
             result_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(result_ell_min, result_ell_max),)
-            result = out or np.zeros(result_shape, dtype=complex)
-            if isinstance(result, tuple):
-                result = result[0]
-            if isinstance(result, type(self)):
-                result = result.view(np.ndarray)
+            result = np.zeros(result_shape, dtype=complex)
             _multiplication_helper(s, args[0].ell_min, args[0].ell_max, args[0].s,
                                    o, args[1].ell_min, args[1].ell_max, args[1].s,
                                    result, result_ell_min, result_ell_max, result_s)
@@ -111,6 +114,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             metadata['spin_weight'] = result_s
             metadata['ell_min'] = result_ell_min
             metadata['ell_max'] = result_ell_max
+            if out is not None:
+                result = _copy_to_out(result, out[0])
             result = type(self)(result, **metadata)
             if out is not None and isinstance(out[0], type(self)):
                 metadata.pop('ell_min')
-- 
2.43.0


From 11ca85740b73954ba5974a0be53496adf1597923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 08/32] fix: Modes could not be multiplied or divided by
 scalars in place

---
 spherical_functions/SWSH_modes/ufuncs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 63b3613..edc6e4e 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -78,7 +78,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             scalars = np.asanyarray(args[1])
             if np.any(scalars) or not modes._check_broadcasting(scalars):
                 return NotImplemented
-            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         elif isinstance(args[1], type(self)):
@@ -86,7 +87,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             modes = args[1]
             if np.any(scalars) or not modes._check_broadcasting(scalars, reverse=True):
                 return NotImplemented
-            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         else:
@@ -125,7 +127,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             scalars = np.asanyarray(args[1])
             if not modes._check_broadcasting(scalars):
                 return NotImplemented
-            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         elif isinstance(args[1], type(self)):
@@ -133,7 +136,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             modes = args[1]
             if not modes._check_broadcasting(scalars, reverse=True):
                 return NotImplemented
-            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         else:
@@ -146,7 +150,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         scalars = np.asanyarray(args[1])
         if not modes._check_broadcasting(scalars):
             return NotImplemented
-        result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+        out_view = out if out is None else out[0].view(np.ndarray)
+        result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
             out[0]._metadata = copy.copy(self._metadata)
 
-- 
2.43.0


From 0a2f7e7de829b0a53464deaff061761fbaccee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:42 +0000
Subject: [PATCH 09/32] fix: Wigner_D_element accepted indices that mix
 integers and half-integers

---
 spherical_functions/WignerD/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 0c70e6d..ac495a0 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -25,6 +25,8 @@ from .. import (jit, _Wigner_coefficient as _coeff,
 def _check_valid_indices(twoell, twomp, twom):
     if (twoell > 2*sf_ell_max or abs(twomp) > twoell or abs(twom) > twoell):
         return False
+    if ((twoell - twomp) % 2 != 0 or (twoell - twom) % 2 != 0):
+        return False
     return True
 
 
-- 
2.43.0


From 48e6ee3b7f1442d2f1033b7b7cf0e3c305b55b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:42 +0000
Subject: [PATCH 10/32] fix: Wigner_D_element(Ra, Rb, ell, mp, m) was mistaken
 for Euler angles

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index ac495a0..6f3566b 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -88,7 +88,7 @@ def Wigner_D_element(*args):
         Rb = args[0].b
         mode_offset = 1
     elif isinstance(args[0], numbers.Number) and isinstance(args[1], numbers.Number)\
-            and isinstance(args[2], numbers.Number):
+            and isinstance(args[2], numbers.Number) and len(args) in (4, 6):
         # UUUUGGGGLLLLYYYY.  The rotation is input as Euler angles
         R = quaternion.from_euler_angles(args[0], args[1], args[2])
         Ra = R.a
-- 
2.43.0


From 3ffbcd0a9fb26adf1c6285dbc74ca093a82f7f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:42 +0000
Subject: [PATCH 11/32] fix: Wigner_D_element raised IndexError for a single
 ell value

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 6f3566b..873f8eb 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -117,7 +117,7 @@ def Wigner_D_element(*args):
         indices = np.round(2*np.asarray(args[mode_offset])).astype(int)
         if (indices.ndim == 0 and indices.size == 1):
             # This was just a single ell value
-            twoell = indices[0]  # already multiplied by 2
+            twoell = indices[()]  # already multiplied by 2
             indices = np.array([[twoell, twomp, twom]
                                 for twomp in range(-twoell, twoell + 1, 2)
                                 for twom in range(-twoell, twoell + 1, 2)])
-- 
2.43.0


From 3b5c9721f1214ecce363d4290ba2d853b4fb4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 12/32] fix: sf.error_on_bad_indices had no effect, and lists
 of ell values were not checked

---
 spherical_functions/WignerD/__init__.py | 28 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 873f8eb..b6aca3a 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -15,9 +15,10 @@ import cmath
 import numpy as np
 import numba as nb
 import quaternion
+import spherical_functions as sf
 from .. import (jit, _Wigner_coefficient as _coeff,
                 Wigner_coefficient as coeff,
-                epsilon, error_on_bad_indices, LMpM_total_size,
+                epsilon, LMpM_total_size,
                 ell_max as sf_ell_max)
 
 
@@ -108,10 +109,6 @@ def Wigner_D_element(*args):
         # Assume these are the (ell, mp, m) indices
         ell, mp, m = args[mode_offset:]
         indices = np.array([[round(2*ell), round(2*mp), round(2*m)], ], dtype=int)
-        if (error_on_bad_indices and not _check_valid_indices(*(indices[0]))):
-            raise ValueError(
-                "(ell,mp,m)=({0},{1},{2})".format(ell, mp, m)
-                + " is not a valid set of indices for Wigner's D matrix")
         return_scalar = True
     elif (len(args) - mode_offset == 1):
         indices = np.round(2*np.asarray(args[mode_offset])).astype(int)
@@ -131,19 +128,26 @@ def Wigner_D_element(*args):
                  for twom in range(-twoell, twoell + 1, 2)])
         elif (indices.ndim == 2):
             # This is an array of [ell,mp,m] values
-            if (error_on_bad_indices):
-                for twoell, twomp, twom in indices:
-                    if not _check_valid_indices(twoell, twomp, twom):
-                        raise ValueError(
-                            "(ell,mp,m)=({0},{1},{2}) is not a valid set".format(twoell/2, twomp/2, twom/2)
-                            + " of indices for Wigner's D matrix")
+            pass
         else:
             raise ValueError("Can't understand input indices")
     else:
         raise ValueError("Can't understand input indices")
 
+    valid = np.array([_check_valid_indices(*index) for index in indices], dtype=bool)
+    if (sf.error_on_bad_indices and not np.all(valid)):
+        twoell, twomp, twom = indices[np.argmin(valid)]
+        raise ValueError(
+            "(ell,mp,m)=({0},{1},{2}) is not a valid set".format(twoell/2, twomp/2, twom/2)
+            + " of indices for Wigner's D matrix")
     elements = np.empty((len(indices),), dtype=complex)
-    _Wigner_D_element(Ra, Rb, indices, elements)
+    if np.all(valid):
+        _Wigner_D_element(Ra, Rb, indices, elements)
+    else:
+        valid_elements = np.empty((np.count_nonzero(valid),), dtype=complex)
+        _Wigner_D_element(Ra, Rb, indices[valid], valid_elements)
+        elements[:] = 0.0
+        elements[valid] = valid_elements
 
     if (return_scalar):
         return elements[0]
-- 
2.43.0


From 2c976be664a2d63c5683694e9645a82985f664dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 13/32] fix: Wigner_D_element with an array of rotors skipped
 index checks and truncated half-integers

---
 spherical_functions/WignerD/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index b6aca3a..c3bf11b 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -80,9 +80,21 @@ def Wigner_D_element(*args):
     """
     # Find the rotation from the args
     if isinstance(args[0], np.ndarray):
-        elements = np.empty_like(args[0], dtype=complex)
-        _Wigner_D_elements(quaternion.as_float_array(args[0]), args[1], args[2], args[3], elements)
-        return elements
+        Rs = args[0].ravel()
+        ell, mp, m = args[1:]
+        indices = np.array([[round(2*ell), round(2*mp), round(2*m)], ], dtype=int)
+        elements = np.zeros(Rs.shape, dtype=complex)
+        if not _check_valid_indices(*(indices[0])):
+            if sf.error_on_bad_indices:
+                raise ValueError(
+                    "(ell,mp,m)=({0},{1},{2})".format(ell, mp, m)
+                    + " is not a valid set of indices for Wigner's D matrix")
+        elif np.any(indices % 2 != 0):
+            for i in range(Rs.size):
+                _Wigner_D_element(Rs[i].a, Rs[i].b, indices, elements[i:i+1])
+        else:
+            _Wigner_D_elements(quaternion.as_float_array(Rs), *(indices[0]//2), elements)
+        return elements.reshape(args[0].shape)
     elif isinstance(args[0], np.quaternion):
         # The rotation is input as a single quaternion
         Ra = args[0].a
-- 
2.43.0


From 63f0d9363042446ae4f42facd6ac0f6157553495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 14/32] fix: Wigner_D_matrices read outside its coefficient
 table for ell beyond sf.ell_max

---
 spherical_functions/WignerD/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index c3bf11b..be75a54 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -401,6 +401,9 @@ def Wigner_D_matrices(R, ell_min, ell_max):
                  + "Input values ell_min={0} and ell_max={1} are not valid.\n".format(ell_min, ell_max)
                  + "Try `Wigner_D_element` with an explicit array of `indices` for half-integers.")
         raise ValueError(error)
+    if ell_min < 0 or ell_max > sf_ell_max:
+        raise ValueError("Input values ell_min={0} and ell_max={1} are outside ".format(ell_min, ell_max)
+                         + "the supported range [0, {0}]".format(sf_ell_max))
     matrices = np.empty((LMpM_total_size(ell_min, ell_max),), dtype=complex)
     _Wigner_D_matrices(R.a, R.b, ell_min, ell_max, matrices)
     return matrices
-- 
2.43.0


From ca17094aaa351ab6524a20d7c92dd08221e667d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 15/32] fix: SWSH and SWSH_grid read outside their coefficient
 table for ell beyond sf.ell_max

---
 spherical_functions/SWSH/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH/__init__.py b/spherical_functions/SWSH/__init__.py
index 0761c89..d344368 100644
--- a/spherical_functions/SWSH/__init__.py
+++ b/spherical_functions/SWSH/__init__.py
@@ -5,7 +5,7 @@ import math
 import cmath
 import numpy as np
 import quaternion
-from .. import (Wigner_coefficient as coeff, epsilon, LM_range, jit)
+from .. import (Wigner_coefficient as coeff, epsilon, LM_range, jit, ell_max as sf_ell_max)
 
 
 def SWSH(R, s, indices):
@@ -35,6 +35,8 @@ def SWSH(R, s, indices):
 
     """
     indices = np.asarray(indices)
+    if np.any(indices[..., 0] > sf_ell_max):
+        raise ValueError(f"Input indices include ell values greater than the maximum supported value {sf_ell_max}")
     if indices.size > 2 or not isinstance(R, np.ndarray):
         values = np.empty((indices.shape[0],), dtype=complex)
         _SWSH(R.a, R.b, s, indices, values)
@@ -77,6 +79,8 @@ def SWSH_grid(R_grid, s, ell_max):
         starting from ell=0 for compatibility with spinsfast.
 
     """
+    if ell_max > sf_ell_max:
+        raise ValueError(f"Input ell_max={ell_max} is greater than the maximum supported value {sf_ell_max}")
     indices = LM_range(0, ell_max)
     values = np.zeros(R_grid.shape + (indices.shape[0],), dtype=complex)
     it = np.nditer(R_grid, flags=['multi_index'])
-- 
2.43.0


From f84b22b32be1b23ebf909e411fadefe426787fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 16/32] fix: complex_powers could not use (or overran) an
 output array of the documented shape

---
 spherical_functions/recursions/complex_powers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/complex_powers.py b/spherical_functions/recursions/complex_powers.py
index 1ceb1e2..94991c3 100644
--- a/spherical_functions/recursions/complex_powers.py
+++ b/spherical_functions/recursions/complex_powers.py
@@ -39,7 +39,7 @@ def complex_powers(z, M, zpowers=None):
     z = np.asarray(z, dtype=complex)
     zravel = z.ravel()
     zpowers = zpowers if zpowers is not None else np.empty((z.size, M+1), dtype=complex)
-    _complex_powers(zravel, M, zpowers)
+    _complex_powers(zravel, M, zpowers.reshape((z.size, M+1)))
     return zpowers.reshape(z.shape+(M+1,))
 
 
-- 
2.43.0


From cb8d4a58d49b07154796d8f691ecf1ecb7c782f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 17/32] fix: complex_powers wrote outside its output array for
 M=0

---
 spherical_functions/recursions/complex_powers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/recursions/complex_powers.py b/spherical_functions/recursions/complex_powers.py
index 94991c3..3aa61b6 100644
--- a/spherical_functions/recursions/complex_powers.py
+++ b/spherical_functions/recursions/complex_powers.py
@@ -53,6 +53,8 @@ def _complex_powers(zravel, M, zpowers):
             θ *= 1j
             z /= 1j
         zpowers[i, 0] = 1.0 + 0.0j
+        if M < 1:
+            continue
         zpowers[i, 1] = z
         clock = θ
         dc = -2 * np.sqrt(z).imag ** 2
-- 
2.43.0


From e20e2cdd16beab7852ec378356aac47cecc247e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 18/32] fix: HCalculator dropped the shape of its input, and
 could scramble or reject multi-dimensional input

---
 spherical_functions/WignerD/WignerDRecursion.py | 6 +++---
 spherical_functions/recursions/wignerH.py       | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index a417b45..8aa1b9a 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -434,7 +434,7 @@ class HCalculator(object):
         Hnmpm = workspace if workspace is not None else self.workspace(cosβ)
         Hextra = np.zeros((self.n_max+2,) + cosβ.shape, dtype=float)
         Hv = np.zeros(((self.n_max+1)**2,) + cosβ.shape, dtype=float)
-        cosβ = cosβ.ravel(order='K')
+        cosβ = cosβ.ravel()
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
@@ -442,7 +442,7 @@ class HCalculator(object):
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
                 )
-            sinβ = sinβ.ravel(order='K')
+            sinβ = sinβ.ravel()
         Hnmpm = Hnmpm.reshape((-1, cosβ.size))
         Hextra = Hextra.reshape((-1, cosβ.size))
         Hv = Hv.reshape((-1, cosβ.size))
@@ -452,5 +452,5 @@ class HCalculator(object):
         _step_4(self.d, self.n_max, Hnmpm, Hv)
         _step_5(self.d, self.n_max, Hnmpm, Hv)
         _step_6(self.n_max, Hnmpm)
-        Hnmpm.reshape((-1,)+cosβshape)
+        Hnmpm = Hnmpm.reshape((-1,)+cosβshape)
         return Hnmpm[:self.nmpm_total_size]  # Remove n_max+1 scratch space
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index cbac624..0cafef1 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -469,7 +469,7 @@ class HCalculator(object):
         if np.max(cosβ) > 1.0 or np.min(cosβ) < -1.0:
             raise ValueError('Nonsensical value for range of cosβ: [{0}, {1}]'.format(np.min(cosβ), np.max(cosβ)))
         cosβshape = cosβ.shape
-        cosβ = cosβ.ravel(order='K')
+        cosβ = cosβ.ravel()
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
@@ -477,8 +477,9 @@ class HCalculator(object):
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
                 )
-            sinβ = sinβ.ravel(order='K')
+            sinβ = sinβ.ravel()
         workspace = workspace if workspace is not None else self.workspace(cosβ)
+        workspace = workspace.reshape((-1, cosβ.size))
         Hwedge = workspace[:self.wedge_size]
         Hv = workspace[self.wedge_size:self.wedge_size+(self.n_max+1)**2]
         Hextra = workspace[self.wedge_size+(self.n_max+1)**2:self.wedge_size+(self.n_max+1)**2+self.n_max+2]
@@ -487,5 +488,4 @@ class HCalculator(object):
         _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
         _step_4(self.d, self.n_max, Hwedge, Hv)
         _step_5(self.d, self.n_max, Hwedge, Hv)
-        Hwedge.reshape((-1,)+cosβshape)
-        return Hwedge
+        return Hwedge.reshape((-1,)+cosβshape)
-- 
2.43.0


From 077024b0c7b5c06381407d5fcf514464e96a6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 19/32] fix: HCalculator wrote outside its workspace for
 n_max=0

---
 spherical_functions/WignerD/WignerDRecursion.py | 2 ++
 spherical_functions/recursions/wignerH.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index 8aa1b9a..df2685e 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -447,6 +447,8 @@ class HCalculator(object):
         Hextra = Hextra.reshape((-1, cosβ.size))
         Hv = Hv.reshape((-1, cosβ.size))
         _step_1(Hnmpm)
+        if self.n_max == 0:
+            return Hnmpm.reshape((-1,)+cosβshape)
         _step_2(self.g, self.h, self.n_max, Hnmpm, Hextra, Hv, cosβ, sinβ)
         _step_3(self.a, self.b, self.n_max, Hnmpm, Hextra, cosβ, sinβ)
         _step_4(self.d, self.n_max, Hnmpm, Hv)
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index 0cafef1..d7bc82f 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -484,6 +484,8 @@ class HCalculator(object):
         Hv = workspace[self.wedge_size:self.wedge_size+(self.n_max+1)**2]
         Hextra = workspace[self.wedge_size+(self.n_max+1)**2:self.wedge_size+(self.n_max+1)**2+self.n_max+2]
         _step_1(Hwedge)
+        if self.n_max == 0:
+            return Hwedge.reshape((-1,)+cosβshape)
         _step_2(self.g, self.h, self.n_max, Hwedge, Hextra, Hv, cosβ, sinβ)
         _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
         _step_4(self.d, self.n_max, Hwedge, Hv)
-- 
2.43.0


From e505249dfeee9ff7b810c1308e93702efce80628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 20/32] fix: Modes.truncate_ell refused to truncate below
 abs(spin weight)

---
 spherical_functions/SWSH_modes/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_modes/utilities.py b/spherical_functions/SWSH_modes/utilities.py
index 2aab13c..ac4a64f 100644
--- a/spherical_functions/SWSH_modes/utilities.py
+++ b/spherical_functions/SWSH_modes/utilities.py
@@ -36,7 +36,8 @@ def truncate_ell(self, new_ell_max):
     """
     if new_ell_max >= self.ell_max:
         return self
-    truncated = self[..., :self.index(new_ell_max, new_ell_max)+1]
+    from .. import LM_total_size
+    truncated = self[..., :LM_total_size(self.ell_min, new_ell_max)]
     truncated._metadata['ell_max'] = new_ell_max
     return truncated
 
-- 
2.43.0


From 542c22eb49bd24440464883b7bb61898fe677a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 21/32] fix: Modes multiplication failed with the documented
 multiplication_truncator=None

---
 spherical_functions/SWSH_modes/algebra.py | 4 ++--
 spherical_functions/SWSH_modes/ufuncs.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/SWSH_modes/algebra.py b/spherical_functions/SWSH_modes/algebra.py
index 6f9da29..5e7bfbb 100644
--- a/spherical_functions/SWSH_modes/algebra.py
+++ b/spherical_functions/SWSH_modes/algebra.py
@@ -245,8 +245,8 @@ def multiply(self, other, truncator=None):
             new_ell_max = max(
                 truncator((self.ell_max, other.ell_max))
                 for truncator in [
-                    self._metadata.get('multiplication_truncator', sum),
-                    other._metadata.get('multiplication_truncator', sum)
+                    self._metadata.get('multiplication_truncator') or sum,
+                    other._metadata.get('multiplication_truncator') or sum
                 ]
             )
         new_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(new_ell_min, new_ell_max),)
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index edc6e4e..7e74cf0 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -103,8 +103,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             result_ell_max = max(
                 truncator((args[0].ell_max, args[1].ell_max))
                 for truncator in [
-                    args[0]._metadata.get('multiplication_truncator', sum),
-                    args[1]._metadata.get('multiplication_truncator', sum)
+                    args[0]._metadata.get('multiplication_truncator') or sum,
+                    args[1]._metadata.get('multiplication_truncator') or sum
                 ]
             )
             result_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(result_ell_min, result_ell_max),)
-- 
2.43.0


From e44760e5bac9d4eec570bc6511ea93570aad5b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:16 +0000
Subject: [PATCH 22/32] fix: Grid in-place operations overwrote their operand
 before refusing a too large spin weight

---
 spherical_functions/SWSH_grids/ufuncs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 9786a83..ca9633c 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -9,6 +9,12 @@ import copy
 import numpy as np
 
 
+def _check_spin_weight(grid, spin_weight):
+    """Refuse a result that cannot be represented on this grid (before anything is written to `out`)"""
+    if min(grid.n_theta, grid.n_phi) < 2*abs(spin_weight)+1:
+        raise ValueError(f"Grid of shape {grid.shape[-2:]} is too small to represent the result, which has spin weight {spin_weight}")
+
+
 def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     # These are required for basic support, but can be more-or-less passed through because they return bools
     if ufunc in [np.greater, np.greater_equal, np.less, np.less_equal, np.not_equal, np.equal,
@@ -74,6 +80,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             if g1.n_theta != g2.n_theta or g1.n_phi != g2.n_phi:
                 raise ValueError(f"Shape mismatch: grid1.shape={g1.shape}; grid2.shape={g2.shape}")
             result_s = g1.s + g2.s if ufunc is np.multiply else g1.s - g2.s
+            _check_spin_weight(g1, result_s)
             result_metadata = copy.copy(g1._metadata)
             result_metadata['spin_weight'] = result_s
             out_view = out if out is None else out[0].view(np.ndarray)
@@ -139,6 +146,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 return NotImplemented
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = exponent * args[0].s
+            _check_spin_weight(args[0], metadata['spin_weight'])
             out_view = out if out is None else out[0].view(np.ndarray)
             result = type(self)(np.power(args[0].view(np.ndarray), exponent, out=out_view), **metadata)
             if out is not None and isinstance(out[0], type(self)):
@@ -158,6 +166,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 new_spin = -args[0].s
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = new_spin
+            _check_spin_weight(args[0], new_spin)
             out_view = out if out is None else out[0].view(np.ndarray)
             result = type(self)(ufunc(args[0].view(np.ndarray), out=out_view), **metadata)
             if out is not None and isinstance(out[0], type(self)):
-- 
2.43.0


From bf4254e0d59b0b173638ef5059377ed283f87480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:11 +0000
Subject: [PATCH 23/32] fix: complex_powers ignored an output array whose
 memory layout prevents reshaping in place

---
 spherical_functions/recursions/complex_powers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/complex_powers.py b/spherical_functions/recursions/complex_powers.py
index 3aa61b6..c7d608d 100644
--- a/spherical_functions/recursions/complex_powers.py
+++ b/spherical_functions/recursions/complex_powers.py
@@ -39,7 +39,11 @@ def complex_powers(z, M, zpowers=None):
     z = np.asarray(z, dtype=complex)
     zravel = z.ravel()
     zpowers = zpowers if zpowers is not None else np.empty((z.size, M+1), dtype=complex)
-    _complex_powers(zravel, M, zpowers.reshape((z.size, M+1)))
+    zpowers_2d = zpowers.reshape((z.size, M+1))
+    _complex_powers(zravel, M, zpowers_2d)
+    if not np.may_share_memory(zpowers_2d, zpowers):
+        # Some memory layouts force `reshape` to make a copy
+        zpowers[...] = zpowers_2d.reshape(zpowers.shape)
     return zpowers.reshape(z.shape+(M+1,))
 
 
-- 
2.43.0


From c2134f5da8c477515e82a38c1a32f92996539023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 24/32] fix: np.conjugate of a Modes object accepted an out
 array of the wrong shape, or wrote part of it before failing

---
 spherical_functions/SWSH_modes/ufuncs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 7e74cf0..f61abbf 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -158,7 +158,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     elif ufunc in [np.conj, np.conjugate]:
         if isinstance(args[0], type(self)):
             s = args[0].view(np.ndarray)
-            c = np.zeros_like(s) if out is None else out[0]
+            c = np.zeros_like(s)
             for ell in range(abs(args[0].s), args[0].ell_max+1):
                 i = LM_index(ell, 0, args[0].ell_min)
                 if args[0].s%2 == 0:
@@ -173,6 +173,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                         c[..., i_p], c[..., i_n] = -np.conjugate(s[..., i_n]), -np.conjugate(s[..., i_p])
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = -args[0].s
+            if out is not None:
+                c = _copy_to_out(c, out[0])
             result = type(self)(c, **metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = metadata
-- 
2.43.0


From a77ec1367d23379b5ba136481fa8dc11afdb0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:43 +0000
Subject: [PATCH 25/32] fix: Wigner_D_element refused read-only arrays of
 rotors

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index be75a54..745be25 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -80,7 +80,7 @@ def Wigner_D_element(*args):
     """
     # Find the rotation from the args
     if isinstance(args[0], np.ndarray):
-        Rs = args[0].ravel()
+        Rs = args[0].flatten()
         ell, mp, m = args[1:]
         indices = np.array([[round(2*ell), round(2*mp), round(2*m)], ], dtype=int)
         elements = np.zeros(Rs.shape, dtype=complex)
-- 
2.43.0


From e65c6f3b93e51c436d4f3f730176ce3c000a6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:43 +0000
Subject: [PATCH 26/32] fix: SWSH refused read-only arrays of indices

---
 spherical_functions/SWSH/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH/__init__.py b/spherical_functions/SWSH/__init__.py
index d344368..0b3dd51 100644
--- a/spherical_functions/SWSH/__init__.py
+++ b/spherical_functions/SWSH/__init__.py
@@ -34,7 +34,7 @@ def SWSH(R, s, indices):
         specified in `indices`.
 
     """
-    indices = np.asarray(indices)
+    indices = np.array(indices)
     if np.any(indices[..., 0] > sf_ell_max):
         raise ValueError(f"Input indices include ell values greater than the maximum supported value {sf_ell_max}")
     if indices.size > 2 or not isinstance(R, np.ndarray):
-- 
2.43.0


From 68fe6022d36c2773ef8230673cab2206a7a0aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 27/32] fix: refuse ufunc methods like outer and at on Modes
 and Grid instead of ignoring the method

---
 spherical_functions/SWSH_grids/ufuncs.py | 7 ++++---
 spherical_functions/SWSH_modes/ufuncs.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index ca9633c..5bba14b 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -31,6 +31,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                        np.power, np.sqrt, np.square, np.reciprocal]:
         return NotImplemented
 
+    # Other ways of using the ufunc (reduce, outer, at, ...) would act on individual grid values
+    if method != '__call__':
+        return NotImplemented
+
     # We will not be supporting any more ufunc keywords
     if kwargs:
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
@@ -181,7 +185,4 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if result is NotImplemented:
         return NotImplemented
 
-    if method == 'at':
-        return
-
     return result
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index f61abbf..4b805e3 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -34,6 +34,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                        np.conj, np.conjugate, np.absolute]:
         return NotImplemented
 
+    # Other ways of using the ufunc (reduce, outer, at, ...) would act on individual mode weights
+    if method != '__call__':
+        return NotImplemented
+
     # We will not be supporting any more ufunc keywords
     if kwargs:
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
@@ -191,7 +195,4 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if result is NotImplemented:
         return NotImplemented
 
-    if method == 'at':
-        return
-
     return result
-- 
2.43.0


From 39409a68da64cb700ebb036618621c953dc6d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 28/32] fix: np.abs of Modes ignored its out= array

---
 spherical_functions/SWSH_modes/ufuncs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 4b805e3..e376648 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -186,6 +186,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             return NotImplemented
 
     elif ufunc is np.absolute:
+        if out is not None:
+            if isinstance(out[0], type(self)):
+                return NotImplemented
+            return np.abs(args[0].ndarray, out=out[0])
         return np.abs(args[0].ndarray)
 
     else:
-- 
2.43.0


From 0985d69f4950040a7ec28c750e6cce8b2c45c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 29/32] fix: Wigner 3-j families had the wrong sign when the
 last value underflows to zero

---
 spherical_functions/recursions/wigner3j.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 58365b9..73483f7 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -37,7 +37,7 @@ def normalize(f, j_min, j_max):
 
 @jit("void(float64[:], int32, int32, int32, int32, int32, int32)")
 def determine_signs(f, j_min, j_max, j2, j3, m2, m3):
-    if (f[j_max] < 0.0 and (-1)**(j2-j3+m2+m3) > 0) or (f[j_max] > 0.0 and (-1)**(j2-j3+m2+m3) < 0):
+    if (f[j_max] < 0.0 and (-1)**(j2-j3+m2+m3) > 0) or (f[j_max] >= 0.0 and (-1)**(j2-j3+m2+m3) < 0):
         f[j_min:j_max+1] *= -1.0
 
 
-- 
2.43.0


From df396ad4200494257fde1276e739c45b79f9f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 30/32] fix: Wigner 3-j families lost accuracy where upward and
 downward recurrences are joined

---
 spherical_functions/recursions/wigner3j.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 73483f7..d3a0598 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -234,19 +234,19 @@ class Wigner3jCalculator(object):
             raise ValueError("Cannot initialize recurrence in Wigner3jCalculator.calculate")
 
         if not undefined_min and not undefined_max:
-            # Iterate upwards and downwards, meeting in the middle
-            j_mid = (j_minus + j_plus) // 2
-            for j in range(j_minus, j_mid):
+            # Iterate upwards for as long as the values grow, and downwards to meet them
+            j_mid = j_plus
+            for j in range(j_minus, j_plus):
                 F_minus[j+1] = (
                     - (Yf(j, j2, j3, m2, m3) * F_minus[j] + Zf(j, j2, j3, m1) * F_minus[j-1]) / Xf(j, j2, j3, m1)
                 )
                 if abs(F_minus[j+1]) > 1.0:
                     F_minus[j_min:j+1+1] /= scale_factor
-                if abs(F_minus[j+1] / F_minus[j-1]) < 1.0 and F_minus[j+1] != 0.0:
+                if abs(F_minus[j+1]) < abs(F_minus[j-1]) and F_minus[j+1] != 0.0:
                     j_mid = j + 1
                     break
             F_minus_j_mid = F_minus[j_mid]
-            if F_minus[j_mid - 1] != 0.0 and abs(F_minus_j_mid / F_minus[j_mid - 1]) < 1.0e-6:
+            if abs(F_minus_j_mid) < abs(F_minus[j_mid - 1]):
                 j_mid -= 1
                 F_minus_j_mid = F_minus[j_mid]
             for j in range(j_plus, j_mid, -1):
-- 
2.43.0


From 5acb92ae5f5c6604cb2ff750129ffaaa8d82646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 31/32] fix: modes and grids indexed outside arrays when
 ell_max is below the spin weight

---
 spherical_functions/SWSH_grids/utilities.py | 7 ++++++-
 spherical_functions/SWSH_modes/utilities.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/SWSH_grids/utilities.py b/spherical_functions/SWSH_grids/utilities.py
index 8d6bdd8..a83444b 100644
--- a/spherical_functions/SWSH_grids/utilities.py
+++ b/spherical_functions/SWSH_grids/utilities.py
@@ -32,7 +32,12 @@ def modes(self, ell_max=None, **kwargs):
     metadata = copy.copy(self._metadata)
     metadata.update(**kwargs)
     metadata.update(spin_weight=self.s, ell_min=0, ell_max=ell_max)
-    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max), **metadata)
+    if ell_max < abs(self.s):
+        # There are no modes with ell<|s|, and spinsfast indexes out of bounds if asked for them
+        modes = np.zeros(self.shape[:-2] + ((ell_max + 1) ** 2,), dtype=complex)
+    else:
+        modes = spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max)
+    return Modes(modes, **metadata)
 
 
 def _check_broadcasting(self, array, reverse=False):
diff --git a/spherical_functions/SWSH_modes/utilities.py b/spherical_functions/SWSH_modes/utilities.py
index ac4a64f..b4258b6 100644
--- a/spherical_functions/SWSH_modes/utilities.py
+++ b/spherical_functions/SWSH_modes/utilities.py
@@ -78,7 +78,12 @@ def grid(self, n_theta=None, n_phi=None, **kwargs):
     metadata = copy.copy(self._metadata)
     metadata.pop('ell_max', None)
     metadata.update(**kwargs)
-    return Grid(spinsfast.salm2map(self.view(np.ndarray), self.s, self.ell_max, n_theta, n_phi), **metadata)
+    if self.ell_max < abs(self.s):
+        # There are no modes with ell<|s|, and spinsfast indexes out of bounds if given them
+        values = np.zeros(self.shape[:-1] + (n_theta, n_phi), dtype=complex)
+    else:
+        values = spinsfast.salm2map(self.view(np.ndarray), self.s, self.ell_max, n_theta, n_phi)
+    return Grid(values, **metadata)
 
 
 def evaluate(self, rotors, **kwargs):
-- 
2.43.0


From 5d5c2dea687abea0b18ccd59f9c5481c1f076fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 32/32] fix: np.negative and np.positive with a Modes or Grid
 as out= ignored their input

---
 spherical_functions/SWSH_grids/ufuncs.py | 2 ++
 spherical_functions/SWSH_modes/ufuncs.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 5bba14b..cf61969 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -40,6 +40,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
 
     if ufunc in [np.positive, np.negative]:
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
         out_view = out if out is None else out[0].view(np.ndarray)
         result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index e376648..db2ce90 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -43,6 +43,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
 
     if ufunc in [np.positive, np.negative]:
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
         out_view = out if out is None else out[0].view(np.ndarray)
         result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
-- 
2.43.0

