From 9e6f3e9947c2baf11cafc8d319c3c76321833a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 01/18] fix: a rejected KernelMatrix.attach_to leaves the
 matrix as it was

---
 kernelmethods/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..35e1534 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,15 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating all the inputs before changing any part of the internal state
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two,
+                                           ensure_dtype=sample_two.dtype)
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +271,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From 47c3e2315baaad9911a7b196ec5faa08c3b3f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 02/18] fix: KernelMatrix views do not depend on km[:,:] or
 full_sparse having been accessed before

---
 kernelmethods/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 35e1534..97c8aa3 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -433,7 +433,9 @@ class KernelMatrix(object):
             # normalization requires a full matrix
             return self._normed_km
         else:
-            return self._populate_fully(dense_fmt=False, fill_lower_tri=False)
+            # _full_km is always kept dense and complete, as other views rely on it
+            return lil_matrix(np.triu(self._populate_fully(dense_fmt=True,
+                                                           fill_lower_tri=True)))
 
 
     def center(self):
@@ -627,7 +629,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
-- 
2.43.0


From 05a8ba026c7a477b4461bd7c54f6c4f2f0708927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 03/18] fix: KernelMatrix recovers after the kernel function
 fails during an access

---
 kernelmethods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 97c8aa3..3d989a8 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -713,7 +713,7 @@ class KernelMatrix(object):
         #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
+        if not self._populated_fully:
             if not dense_fmt:
                 self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
             else:
@@ -750,6 +750,8 @@ class KernelMatrix(object):
                         self._full_km[ix_one, ix_two] = self._eval_kernel(ix_one,
                                                                           ix_two)
             except:
+                # lower triangle is incomplete, so it must be retried on next access
+                self._populated_fully = False
                 raise RuntimeError('Unable to symmetrize the kernel matrix!')
             else:
                 self._lower_tri_km_filled = True
-- 
2.43.0


From e42d45ac5372ab8593c66150a2d809d2c2f05fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 04/18] fix: format() and f-strings work on KernelMatrix,
 KernelSet and callable kernels

---
 kernelmethods/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 3d989a8..712e451 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -142,7 +142,6 @@ class KernelFromCallable(BaseKernelFunction):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -780,7 +779,6 @@ class KernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -869,7 +867,6 @@ class KernelMatrixPrecomputed(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1039,7 +1036,6 @@ class ConstantKernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1254,7 +1250,6 @@ class KernelSet(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1438,7 +1433,6 @@ class CompositeKernel(ABC):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
-- 
2.43.0


From 4854cd13e33d0a82bba9d27ba6e0aaa217676965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 05/18] fix: KernelMatrixPrecomputed rejects constant row
 vectors as non-square

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 712e451..f7d89f0 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -809,7 +809,8 @@ class KernelMatrixPrecomputed(object):
         if not isinstance(matrix, np.ndarray):
             matrix = np.array(matrix)
 
-        if matrix.ndim != 2 or not_symmetric(matrix) or \
+        if matrix.ndim != 2 or matrix.shape[0] != matrix.shape[1] or \
+            not_symmetric(matrix) or \
             (not np.isreal(matrix).all()):
             raise ValueError('Input matrix appears to be NOT 2D or symmetric or '
                              'not real! A real-valued symmetric matrix is needed '
-- 
2.43.0


From ef3d6cea91a54b728a0b94cf939d15b3aed0ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 06/18] fix: empty selections in ConstantKernelMatrix raise
 KMAccessError, not NameError

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f7d89f0..46b28d5 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1021,7 +1021,8 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected with {}'
+                                ''.format(index_obj_per_dim))
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From 2736dc35b5c4384fa2bf63cabb4a6de0270a2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 07/18] fix: KernelMatrix.normalize honours method when
 attached to two samples

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 46b28d5..4d65709 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -502,7 +502,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From 7cab4b8ddab3231c20c3baddf9338a4370f9f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 08/18] fix: KernelSet.set_attr applies a single-element list
 to all members, as documented

---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 4d65709..49e85af 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1336,6 +1336,8 @@ class KernelSet(object):
 
         if not isinstance(values, Iterable) or isinstance(values, str):
             values = [values] * self.size
+        elif len(values) == 1:
+            values = list(values) * self.size
         elif len(values) != self.size:
             raise ValueError('Values must be single element, or '
                              'of the same size as this KernelSet ({}), '
-- 
2.43.0


From a91a8f04a8cd78380eb777fb19da7bcc33ebc01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 09/18] fix: numeric kernels compute in floating point, integer
 inputs do not wrap around

---
 kernelmethods/numeric_kernels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/numeric_kernels.py b/kernelmethods/numeric_kernels.py
index 41d937c..09456a9 100644
--- a/kernelmethods/numeric_kernels.py
+++ b/kernelmethods/numeric_kernels.py
@@ -65,7 +65,7 @@ class HadamardKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         abs_x_a = np.power(np.abs(x), self.alpha)
         abs_y_a = np.power(np.abs(y), self.alpha)
@@ -139,7 +139,7 @@ class PolyKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return (self.b + self.gamma * np.dot(x, y)) ** self.degree
 
@@ -197,7 +197,7 @@ class GaussianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.exp(-self.gamma * np.linalg.norm(x - y, ord=2) ** 2)
 
@@ -251,7 +251,7 @@ class LaplacianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.exp(-self.gamma * np.sum(np.abs(x - y)))
 
@@ -391,7 +391,7 @@ class SigmoidKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.tanh(self.offset + (self.gamma * np.dot(x, y)))
 
@@ -435,7 +435,7 @@ class LinearKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return x.dot(y.T)
 
-- 
2.43.0


From 25d4d61161d5b0e229eadbef03f61572d0e02a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 10/18] fix: KernelMachine and KernelMachineRegressor are
 recognized as classifier and regressor

---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..c48f540 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -184,11 +184,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From dd93708691a73c8dd252e0899497cd21dc49c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 11/18] fix: OptimalKernelSVC and OptimalKernelSVR work with
 method='align/corr'

---
 kernelmethods/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..fa6c568 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -143,6 +143,8 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
     targets = np.asarray(targets)
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
+    # alignment does not involve any estimator
+    method_params.pop('estimator_name', None)
 
     return np.array([
         alignment_centered(km.full, target_kernel, **method_params)
-- 
2.43.0


From e28afa13ff222bda263d2fb0c79fe1f5b8775c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 12/18] fix: find_optimal_kernel never prefers a kernel with an
 undefined (NaN) metric

---
 kernelmethods/ranking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index fa6c568..7820d07 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -52,7 +52,8 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
-    return kernel_bucket[np.argmax(metric)]
+    # kernels whose metric could not be computed (NaN) can not be optimal
+    return kernel_bucket[np.nanargmax(metric)]
 
 
 def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
-- 
2.43.0


From 0ced849d154f854a1bc15b4e2e025e362dab2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 13/18] fix: OptimalKernelSVC/SVR train on the optimal kernel,
 not an RBF of its rows

---
 kernelmethods/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index c48f540..99c6813 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -355,6 +355,9 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
+        # set here and not in the constructor, to be treated as precomputed only
+        # when fed with the kernel matrices, in .fit() and .predict() of SVC/SVR
+        self.kernel = 'precomputed'
         super().fit(X=self.opt_kernel_.full, y=self._train_y,
                     sample_weight=sample_weight)
 
-- 
2.43.0


From e1c39d8517bb8859a266ea3fc357c1b180725f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 14/18] fix: OptimalKernelSVC.predict returns labels of any
 type

---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 99c6813..9915506 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -682,8 +682,8 @@ class OptimalKernelSVC(BaseOptimalKernelMachine, SVC):
         """
 
         predicted_y = super().predict(X)
-        # casting output type to integers
-        return np.asarray(predicted_y, dtype=np.intp)
+        # ensuring output type is the same as that of the training labels
+        return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
 
     def get_params(self, deep=True):
-- 
2.43.0


From 1af0d793633cc17f9bb25f91004ca716b8e6bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 15/18] fix: KernelSet.extend adds all members of the other set
 or none

---
 kernelmethods/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 49e85af..c39be98 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1308,8 +1308,14 @@ class KernelSet(object):
             raise KMSetAdditionError('The two KernelSets are not compatible'
                                      ', in size (# samples)')
 
-        for km in another_km_set:
-            self.append(km)
+        before = (list(self._km_set), self._num_samples, self._is_init)
+        try:
+            for km in another_km_set:
+                self.append(km)
+        except KMSetAdditionError:
+            # adding all of them, or none
+            self._km_set, self._num_samples, self._is_init = before
+            raise
 
 
     def set_attr(self, name, values):
-- 
2.43.0


From a7105c187dfc014fcc74526112a4463039513de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:28 +0000
Subject: [PATCH 16/18] fix: KernelSet.get_kernel_funcs returns a tuple, as
 documented

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index c39be98..5284df8 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1225,7 +1225,7 @@ class KernelSet(object):
 
         indices = self._check_indices(indices)
 
-        return (self._km_set[index].kernel for index in indices)
+        return tuple(self._km_set[index].kernel for index in indices)
 
 
     def _check_indices(self, indices):
-- 
2.43.0


From cdbe40466cb3d08a866afb34d6543868a870ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:45 +0000
Subject: [PATCH 17/18] fix: a fitted KernelMachineRegressor is recognized as
 fitted by scikit-learn

---
 kernelmethods/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 9915506..f136b05 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -106,6 +106,9 @@ class BaseKernelMachine(BaseEstimator):
         else:
             self._train_X, self._train_y = check_X_y(X, y)
 
+        # fitted attributes are how sklearn recognizes a fitted estimator
+        self.n_features_in_ = self._train_X.shape[1]
+
         self._km = KernelMatrix(self.k_func, name='train_km',
                                 normalized=self.normalized)
         self._km.attach_to(self._train_X)
-- 
2.43.0


From 693242ee52d49d469eb2635ff493a86ce1dd9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 18/18] fix: KernelSet.attach_to accepts categorical samples

---
 kernelmethods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 5284df8..0efe741 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1283,7 +1283,9 @@ class KernelSet(object):
 
         """
 
-        self.sample = ensure_ndarray_2D(sample)
+        # data type is left alone (categorical samples are not numeric), as in
+        # KernelMatrix.attach_to
+        self.sample = ensure_ndarray_2D(sample, ensure_dtype=sample.dtype)
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
         else:
-- 
2.43.0

