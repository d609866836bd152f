From 7af7f1feb110ace4b856634e9a99796c4e813ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 01/17] fix: honour rtol in DMD and total-least-squares DMD
 eigendecompositions

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..699a687 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From 5043eeccaf0094cc449feecbf734db099ce31c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 02/17] fix: keep a single restored eigenvalue or singular
 value one-dimensional

---
 modred/bpod.py |  4 ++--
 modred/dmd.py  | 20 ++++++++++----------
 modred/pod.py  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..d9736fe 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,8 +210,8 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
-            self.get_array, sing_vals_src))
+        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
+            self.get_array, sing_vals_src)))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
         self.R_sing_vecs = parallel.call_and_bcast(
diff --git a/modred/dmd.py b/modred/dmd.py
index 699a687..8ad5f96 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,15 +557,15 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, correlation_array_eigvals_src)))
+            self.get_array, correlation_array_eigvals_src))))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, correlation_array_eigvecs_src)
 
@@ -1979,20 +1979,20 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, sum_correlation_array_eigvals_src)))
+            self.get_array, sum_correlation_array_eigvals_src))))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, proj_correlation_array_eigvals_src)))
+            self.get_array, proj_correlation_array_eigvals_src))))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvecs_src)
 
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..1d6c3a2 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,8 +264,8 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
-            self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
 
-- 
2.43.0


From 914f276c38577b83ebce1ba31b0bbb7efa11b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 03/17] fix: return DMD spectral coefficients of a single mode
 as a 1D array

---
 modred/dmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 8ad5f96..deed10e 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -1076,7 +1076,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2148,7 +2148,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From 61654ef872bc2c082d4653dd3c9429cfa58ce6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 04/17] fix: conjugate eigenvectors in the TLSqrDMD
 snapshot-method spectral coefficients

---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index deed10e..0192399 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T)))
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From 97f1f8f7f813fb2c65035887a7efabc31c916550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 05/17] fix: forget earlier advanced vectors when DMD is given
 a sequential dataset

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 0192399..0c7921c 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
-        if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
+        self.adv_vec_handles = adv_vec_handles
+        if self.adv_vec_handles is not None:
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1872,8 +1872,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
-        if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
+        self.adv_vec_handles = adv_vec_handles
+        if self.adv_vec_handles is not None:
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From b164d5ac426d21e2486bc9d88dc038e783f01368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 06/17] fix: raise ValueError itself from DMD
 compute_exact_modes

---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 0c7921c..c73f9dc 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From ab1353fca7b899cd72973cce81fc2c02ba7d6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 07/17] fix: save integer, single precision and Fortran-ordered
 arrays as text correctly

---
 modred/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..849cacf 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,6 +82,12 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # Make sure viewing the data as (pairs of) doubles is valid
+    if np.iscomplexobj(array):
+        array = np.ascontiguousarray(array, dtype=complex)
+    else:
+        array = np.ascontiguousarray(array, dtype=float)
+
     # Save data
     if delimiter is None:
         np.savetxt(file_name, array.view(float))
-- 
2.43.0


From f54042b0698b086ccb82d421a2f6975ec33d7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 08/17] fix: do not reuse a cached base vector with another
 scale or base

---
 modred/vectors.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..b5d1a95 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -31,7 +31,7 @@ class VecHandle(object):
         vec = self._get()
         if self.__base_vec_handle is None:
             return self.__scale_vec(vec)
-        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
+        if self.__is_base_cached():
             base_vec = VecHandle.cached_base_vec
         else:
             base_vec = self.__base_vec_handle.get()
@@ -40,6 +40,19 @@ class VecHandle(object):
         return self.__scale_vec(vec - base_vec)
 
 
+    def __is_base_cached(self):
+        """Returns True if the cached base vector is what the base vector
+        handle would get.  Equality of handles only says that they refer to the
+        same stored vector, so scale and base vector must match too."""
+        base, cached = self.__base_vec_handle, VecHandle.cached_base_vec_handle
+        if base is cached:
+            return True
+        return (base == cached and
+            getattr(base, 'scale', None) == getattr(cached, 'scale', None) and
+            getattr(base, '_VecHandle__base_vec_handle', None) is
+            getattr(cached, '_VecHandle__base_vec_handle', None))
+
+
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
-- 
2.43.0


From 4534d39b8a5bcb46821bf91417ce703f385d45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 09/17] fix: forget the cached base vector when a vector is put

---
 modred/vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/vectors.py b/modred/vectors.py
index b5d1a95..623cd4b 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -56,6 +56,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The vector could be the cached base vector
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From 31b8fdaa21d398e2b050b6de73a7db60d7998f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 10/17] fix: accept atol=None in eigh for positive definite
 arrays

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 849cacf..e347bfd 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -283,7 +283,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() < 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From 1d0d038f450147607eb9f09f4a21709bc74a6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 11/17] fix: assign trailing tasks of negligible weight to the
 last worker

---
 modred/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..e4dd2ad 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,10 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker gets everything that is left, even tasks whose
+            # weight is too small to count
+            if num_remaining_workers == 1:
+                new_max_task_index = len(tasks) - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From 16b9cf6fb77b4b8d848b794c2cc5624a9b1d75e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 12/17] fix: do not truncate inner products to the type of the
 first one

---
 modred/vectorspace.py | 61 ++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..a98557f 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -8,6 +8,15 @@ from . import util
 from .py2to3 import print_msg, range
 
 
+def _assign_element(array, row_index, col_index, value):
+    """Assigns an element of an array and returns the array, converted to a type
+    that can hold the value if it could not (e.g., complex value, real
+    array)."""
+    array = array.astype(np.result_type(array, type(value)), copy=False)
+    array[row_index, col_index] = value
+    return array
+
+
 class VectorSpaceArrays(object):
     """Implements inner products and linear combinations using data stored in
     arrays.
@@ -450,12 +459,12 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                IP_array = _assign_element(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -604,16 +613,20 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = _assign_element(
+                        IP_array, row_index, row_index,
+                        self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = _assign_element(
+                            IP_array, row_index, col_index,
+                            self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -681,12 +694,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                IP_array = _assign_element(
+                                    IP_array, row_index,
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -769,12 +782,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                IP_array = _assign_element(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From 41c597a1f26936a3175b24342403f930ef1ee859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 13/17] fix: combine vectors of different types linearly

---
 modred/vectorspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index a98557f..9a9a52d 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -1056,8 +1056,10 @@ class VectorSpaceHandles(object):
                                 sum_layers[
                                     sum_index-start_sum_index] = sum_layer
                             else:
-                                sum_layers[
-                                    sum_index - start_sum_index] += sum_layer
+                                # Not in place, types may be different
+                                sum_layers[sum_index - start_sum_index] = (
+                                    sum_layers[sum_index - start_sum_index] +
+                                    sum_layer)
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From 0f674915c877c02cd28f3ea14a5aca7c359f4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 14/17] fix: inner product weights of vectors with a single
 element remain an array

---
 modred/vectorspace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 9a9a52d..c39110b 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -28,7 +28,11 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.array(self.weights)
+            # Vectors with a single element have a single weight, which must
+            # remain an array.
+            if self.weights.ndim > 0:
+                self.weights = np.atleast_1d(self.weights.squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From 94c0d13131a8eeb4cf9f35ae0bf3cfc0e0049265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 15/17] fix: sanity check accepts large vectors and checks
 small ones

---
 modred/vectorspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index c39110b..6cae150 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -165,9 +165,6 @@ class VectorSpaceHandles(object):
         # TODO: Other things which could be tested:
         # ``get``/``put`` doesn't affect other vecs (memory problems)
 
-        # Set tolerance
-        tol = 1e-12
-
         # Check inner product properties
         self._check_inner_product()
 
@@ -179,6 +176,9 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # Set tolerance, relative to the size of the vector
+        tol = 1e-12 * abs(vec_copy_mag_sq)
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From 8a97b329e9319f713aa301bbf38b573a014c2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 16/17] fix: forget cached base vectors that another worker has
 put

---
 modred/ltigalerkinproj.py | 4 +++-
 modred/vectors.py         | 9 ++++++++-
 modred/vectorspace.py     | 3 +++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index 89a7170..c5ba3d2 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -4,7 +4,7 @@ import numpy as np
 from . import parallel
 from . import util
 from .py2to3 import range
-from .vectors import VecHandleInMemory
+from .vectors import VecHandle, VecHandleInMemory
 from .vectorspace import VectorSpaceArrays, VectorSpaceHandles
 
 
@@ -50,6 +50,8 @@ def compute_derivs_handles(vec_handles, adv_vec_handles, deriv_vec_handles, dt):
         vec_dt = adv_vec_handles[i].get()
         deriv_vec_handles[i].put((1. / dt) * (vec_dt - vec))
     parallel.barrier()
+    # Another worker could have put the base vector this worker has cached
+    VecHandle.forget_cached_base_vec()
 
 
 def compute_derivs_arrays(vecs, adv_vecs, dt):
diff --git a/modred/vectors.py b/modred/vectors.py
index 623cd4b..1e14d9d 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -57,9 +57,16 @@ class VecHandle(object):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
         # The vector could be the cached base vector
+        VecHandle.forget_cached_base_vec()
+        return self._put(vec)
+
+
+    @staticmethod
+    def forget_cached_base_vec():
+        """Forgets the cached base vector, which must be done when it might
+        have been put again, by this or another processor/MPI worker."""
         VecHandle.cached_base_vec_handle = None
         VecHandle.cached_base_vec = None
-        return self._put(vec)
 
 
     def _get(self):
diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 6cae150..62e3423 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -6,6 +6,7 @@ import numpy as np
 from . import parallel
 from . import util
 from .py2to3 import print_msg, range
+from .vectors import VecHandle
 
 
 def _assign_element(array, row_index, col_index, value):
@@ -1083,6 +1084,8 @@ class VectorSpaceHandles(object):
             'Completed 100% of linear combinations', output_channel='stderr')
         self.prev_print_time = time()
         parallel.barrier()
+        # Another worker could have put the base vector this worker has cached
+        VecHandle.forget_cached_base_vec()
 
 
     def __eq__(self, other):
-- 
2.43.0


From da1236a18651880d1c4cf6c34b5ba584ab221658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 17/17] fix: eigenvalues that are exactly zero are not positive

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index e347bfd..3357627 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -283,7 +283,7 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and (
+    if is_positive_definite and eigvals.min() <= 0 and (
         atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
-- 
2.43.0

