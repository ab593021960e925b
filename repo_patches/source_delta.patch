From 268193bce2bee7ef15eba06ccd60f8a42372eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 01/22] fix: midpoint of a bounded parameter's default value
 lies inside the bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..952a6ac 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (lb + ub)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From 10ac5caea9418d005786a4d06b64030502730ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 02/22] fix: positive definite vectors and arrays reject values
 of the wrong shape

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..0e08369 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -223,7 +223,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -347,7 +347,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             print(val.shape)
             print(self.__shape)
             raise ValueError('Array is the wrong size')
-- 
2.43.0


From f80e4f00e9627b7d07a8c0182e589b6f1bb42996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 03/22] fix: PosDefMatrixParamArray default shape is a tuple
 and length() is defined

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 0e08369..66da4b6 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -321,7 +321,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1,), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -470,7 +470,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return self.__array_length
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From 81ccea575a194e45360e876326a0d7ffc66a5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 04/22] fix: ModelParamsDict rejects a second parameter with
 the same name

---
 LinearResponseVariationalBayes/ParameterDictionary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LinearResponseVariationalBayes/ParameterDictionary.py b/LinearResponseVariationalBayes/ParameterDictionary.py
index 46ff59b..e896a94 100644
--- a/LinearResponseVariationalBayes/ParameterDictionary.py
+++ b/LinearResponseVariationalBayes/ParameterDictionary.py
@@ -37,6 +37,9 @@ class ModelParamsDict(object):
         return self.param_dict[key]
 
     def push_param(self, param):
+        if param.name in self.param_dict:
+            raise ValueError(
+                'A parameter named ' + str(param.name) + ' already exists.')
         self.param_dict[param.name] = param
         self.free_indices_dict[param.name] = \
             range(self.__free_size, self.__free_size + param.free_size())
-- 
2.43.0


From e13dd695a2ae9c49fb9cd4bb79e4e2186a1dfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 05/22] fix: UVNMomentParamArray.var_exp returns the lognormal
 variance

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From 0df48ac84bf14de5a33106c187eba563976fb804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 06/22] fix: univariate_normal_log_prob uses the log of the
 information

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 861255588f0c27206304c1ef41fca609ab20e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 07/22] fix: WishartParam uses its size for the scale matrix

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..b79c258 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From f02ba5855f44e32d59c9765e717833be7cc67abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 08/22] fix: WishartParam.e_inv is the (differentiable) mean of
 the inverse

---
 LinearResponseVariationalBayes/WishartParams.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index b79c258..c3987ca 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -1,7 +1,7 @@
 import LinearResponseVariationalBayes as vb
 import LinearResponseVariationalBayes.ExponentialFamilies as ef
 
-import numpy as np
+from autograd import numpy as np
 
 class WishartParam(vb.ModelParamsDict):
     def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
@@ -20,7 +20,8 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From 50e2c4b2e487f340b2d1694f4c0bfb37871fcc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 09/22] fix: recursive_split starts from an empty list and
 returns its results

---
 LinearResponseVariationalBayes/ConjugateGradient.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/LinearResponseVariationalBayes/ConjugateGradient.py b/LinearResponseVariationalBayes/ConjugateGradient.py
index 6045da4..0e35c92 100644
--- a/LinearResponseVariationalBayes/ConjugateGradient.py
+++ b/LinearResponseVariationalBayes/ConjugateGradient.py
@@ -33,7 +33,9 @@ def split_vector(vec):
 # Recursively split a vector of booleans into smaller vectors until each
 # vector has less than terminate_len True values.  Save the results in
 # the array results.
-def recursive_split(mask, results=[], terminate_len=10):
+def recursive_split(mask, results=None, terminate_len=10):
+    if results is None:
+        results = []
     if np.sum(mask) > terminate_len:
         # Split and recurse
         mask1, mask2 = split_vector(mask)
@@ -41,8 +43,9 @@ def recursive_split(mask, results=[], terminate_len=10):
         recursive_split(mask2, results=results, terminate_len=terminate_len)
     else:
         results.append(mask)
-        
-        
+    return results
+
+
 def get_masks(full_len, min_mask_len):
     assert(min_mask_len > 0)
     assert(min_mask_len < full_len)
-- 
2.43.0


From bf525af5dfd8c077db4f6fbc4f77b0a008b4e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 10/22] fix: Logger records a copy of x, not the optimizer's
 buffer

---
 LinearResponseVariationalBayes/SparseObjectives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..606ada6 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -66,6 +66,8 @@ class Logger(object):
 
     def log(self, value, x):
         self.value = value
+        # The optimizer may reuse the memory of x for its next iterate.
+        x = deepcopy(x)
         self.x = x
         self.x_array.append(x)
         self.val_array.append(value)
-- 
2.43.0


From 26d7950297672a22d57638900702733e10012dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 11/22] fix: free_to_vector_jac and _hess leave the parameter's
 own value in place

---
 .../MatrixParameters.py                          | 16 ++++++++++++----
 LinearResponseVariationalBayes/Parameters.py     | 14 +++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 66da4b6..ca41b3c 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -146,10 +146,6 @@ class PosDefMatrixParam(object):
         else:
             self.set(val)
 
-        # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
     def names(self):
@@ -176,6 +172,18 @@ class PosDefMatrixParam(object):
     def free_to_vector(self, free_val):
         self.set_free(free_val)
         return self.get_vector()
+    # These will be dense, so just use autograd directly.
+    # Autograd leaves its boxes in the parameter, so put back the value.
+    def free_to_vector_jac_dense(self, free_val):
+        val = self.__val
+        jac_dense = autograd.jacobian(self.free_to_vector)(free_val)
+        self.__val = val
+        return jac_dense
+    def free_to_vector_hess_dense(self, free_val):
+        val = self.__val
+        hess_dense = autograd.hessian(self.free_to_vector)(free_val)
+        self.__val = val
+        return hess_dense
     def free_to_vector_jac(self, free_val):
         return coo_matrix(self.free_to_vector_jac_dense(free_val))
     def free_to_vector_hess(self, free_val):
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 952a6ac..8bb0aa8 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,9 +93,6 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ': ' + str(self.__val)
     def names(self):
@@ -127,6 +124,17 @@ class ScalarParam(object):
     def free_to_vector(self, free_val):
         self.set_free(free_val)
         return self.get()
+    # Autograd leaves its boxes in the parameter, so put back the value.
+    def free_to_vector_jac_dense(self, free_val):
+        val = self.__val
+        jac_dense = autograd.jacobian(self.free_to_vector)(free_val)
+        self.__val = val
+        return jac_dense
+    def free_to_vector_hess_dense(self, free_val):
+        val = self.__val
+        hess_dense = autograd.hessian(self.free_to_vector)(free_val)
+        self.__val = val
+        return hess_dense
     def free_to_vector_jac(self, free_val):
         return coo_matrix(self.free_to_vector_jac_dense(free_val))
     def free_to_vector_hess(self, free_val):
-- 
2.43.0


From dbcd6e574599f2f62329d12548befd64f4840bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 12/22] fix: ScalarParam rejects values that are not of size
 one

---
 LinearResponseVariationalBayes/Parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 8bb0aa8..e4850c3 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -106,6 +106,9 @@ class ScalarParam(object):
 
     def set(self, val):
         # TODO: Make checking an option.
+        if np.size(val) != 1:
+            raise ValueError('Wrong size for scalar ' + self.name +
+                             '.  Expected: 1, got ' + str(np.size(val)))
         # if val < self.__lb:
         #     error_msg = 'val is less than the lower bound: ' + \
         #         str(val) + ' <= ' + str(self.__lb)
-- 
2.43.0


From f745af0ca22a3a25b1a723940133067dc97bc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 13/22] fix: ParametricSensitivity's output is the one at the
 optimal input

---
 LinearResponseVariationalBayes/SparseObjectives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 606ada6..cefbdd4 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -548,7 +548,8 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = self.parameter_converter.converter_free_to_vec(
+            self.optimal_input_par)
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From d1523c5c1e08f2dcc83ab7832a98b0d9e1f1ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 14/22] fix: sensitivity classes use the hess0 they are given

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..59d11fe 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -576,7 +576,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
-- 
2.43.0


From 2fe14b4b87f099f8ae680f70c12458b910e7386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 15/22] fix: sensitivity Hessians are taken in the declared
 parameterization

---
 .../ModelSensitivity.py                           | 15 +++++++++++----
 .../SparseObjectives.py                           |  8 ++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 59d11fe..1d855d2 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -588,14 +591,18 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            self.joint_objective.fun_hessian12(
+                self.input_val0, self.hyper_val0,
+                self.input_is_free, self.hyper_is_free)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index cefbdd4..3c3aed6 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -388,6 +388,14 @@ class TwoParameterObjective(object):
             val1_is_free, val2_is_free,
             *argv, **argk)
 
+    def fun_hessian12(
+        self, val1, val2, val1_is_free, val2_is_free, *argv, **argk):
+        return self.cache_and_eval(
+            self._fun_hessian12,
+            val1, val2,
+            val1_is_free, val2_is_free,
+            *argv, **argk)
+
     def fun_free_hessian12(self, free_val1, free_val2, *argv, **argk):
         return self.cache_and_eval(
             self._fun_hessian12,
-- 
2.43.0


From db84904d93dc5e3f854c7f1ea879205a1a971b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 16/22] fix: Taylor expansion differentiates the whole
 objective in input_par

---
 .../ModelSensitivity.py                        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 1d855d2..1fd3d0b 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -401,6 +401,8 @@ class ParametricSensitivityTaylorExpansion(object):
             self.input_par, self.objective_functor)
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
+        self.full_joint_objective = obj_lib.TwoParameterObjective(
+            self.input_par, self.hyper_par, self.objective_functor)
 
         self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
@@ -435,6 +437,13 @@ class ParametricSensitivityTaylorExpansion(object):
             input_val, hyper_val, self.input_is_free, self.hyper_is_free,
             *argv, **argk)
 
+    # The same, but for the whole objective rather than the part of it
+    # depending on the hyperparameter.
+    def full_objective_gradient(self, input_val, hyper_val, *argv, **argk):
+        return self.full_joint_objective.fun_grad1(
+            input_val, hyper_val, self.input_is_free, self.hyper_is_free,
+            *argv, **argk)
+
     # Get a function returning the next derivative from the Taylor terms dterms.
     def get_dkinput_dhyperk_from_terms(self, dterms):
         def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
@@ -460,6 +469,15 @@ class ParametricSensitivityTaylorExpansion(object):
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
 
+        if self.hyper_par_objective_functor is not self.objective_functor:
+            # hyper_par_objective_functor may omit terms that do not depend on
+            # hyper_par, so the derivatives with respect to input_par alone
+            # come from the whole objective.
+            input_g_derivs = generate_two_term_derivative_array(
+                self.full_objective_gradient, order=self.order + 1)
+            for eta_order in range(len(self.eval_g_derivs)):
+                self.eval_g_derivs[eta_order][0] = input_g_derivs[eta_order][0]
+
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
         for k in range(self.order - 1):
-- 
2.43.0


From 083953e8e64337b2278837225543e7c4cfc0c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:46 +0000
Subject: [PATCH 17/22] fix: asking a derivative of an objective to be verbose
 does not log autograd boxes

---
 LinearResponseVariationalBayes/SparseObjectives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 3c3aed6..26da57b 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -141,7 +141,9 @@ class Objective(object):
     # are presumably numeric, and set the parameters to those values
     # after the autograd function is called.
 
-    def cache_free_and_eval(self, autograd_fun, free_val, *argv, **argk):
+    # A derivative is never logged: fun_free would log autograd's boxes.
+    def cache_free_and_eval(
+        self, autograd_fun, free_val, *argv, verbose=False, **argk):
         result = autograd_fun(free_val, *argv, **argk)
         self.par.set_free(free_val)
         return result
@@ -182,7 +184,7 @@ class Objective(object):
     # then other *argv arguments, then the vector by which the Hessian
     # is to be multiplied, then the keyword arguments.
     # See the definition of hessian_tensor_product in autograd.
-    def fun_free_hvp(self, *argv, **argk):
+    def fun_free_hvp(self, *argv, verbose=False, **argk):
         args, vec = argv[:-1], argv[-1]
         result = self.ag_fun_free_hvp(*args, vec, **argk)
         self.par.set_free(args[0])
-- 
2.43.0


From 750675af24d2bb4ccdbf26194068b65dff6278ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:27 +0000
Subject: [PATCH 18/22] fix: sensitivity objects keep their own copies of the
 values and Hessian given

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 LinearResponseVariationalBayes/SparseObjectives.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 1fd3d0b..62c2e57 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -427,7 +427,7 @@ class ParametricSensitivityTaylorExpansion(object):
             else:
                 self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
-            self.hess0 = hess0
+            self.hess0 = deepcopy(hess0)
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
     # In order to calculate derivatives d^kinput_dhyper^k, we will be Taylor
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 26da57b..530a349 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -553,13 +553,14 @@ class ParametricSensitivity(object):
         self.dout_din = self.parameter_converter.free_to_vec_jacobian(
             self.optimal_input_par)
 
-        self.optimal_hyper_par = self.hyper_par.get_vector()
+        self.optimal_hyper_par = deepcopy(self.hyper_par.get_vector())
         self.hyper_par_cross_hessian = \
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.parameter_converter.converter_free_to_vec(
-            self.optimal_input_par)
+        self.optimal_output_par = deepcopy(
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par))
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From 38efa3faf2b850ebc4199bcc9a795047d6a00050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:32 +0000
Subject: [PATCH 19/22] fix: the conjugate gradient solver keeps its own copy
 of the point

---
 LinearResponseVariationalBayes/ConjugateGradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/ConjugateGradient.py b/LinearResponseVariationalBayes/ConjugateGradient.py
index 0e35c92..0372707 100644
--- a/LinearResponseVariationalBayes/ConjugateGradient.py
+++ b/LinearResponseVariationalBayes/ConjugateGradient.py
@@ -66,6 +66,8 @@ def get_masks(full_len, min_mask_len):
 class ConjugateGradientSolver(object):
     def __init__(self, eval_hessian_vector_product, x0):
         self.dim = len(x0)
+        # The caller may reuse the memory of x0.
+        x0 = np.array(x0)
         self.ObjHessVecProdLO = \
             LinearOperator((self.dim, self.dim),
             lambda vec: eval_hessian_vector_product(x0, vec))
-- 
2.43.0


From 1cd36e26e1472e7fbda070f904957ba4b39657ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 20/22] fix: sensitivity objects do not share their base values
 with the parameters

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 8 +++++++-
 LinearResponseVariationalBayes/SparseObjectives.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 62c2e57..9a8b4e6 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -14,7 +14,7 @@ def set_par(par, val, is_free):
     if is_free:
         par.set_free(val)
     else:
-        par.set_vector(val)
+        par.set_vector(deepcopy(val))
 
 
 # Append a jacobian vector product to a function.
@@ -430,6 +430,9 @@ class ParametricSensitivityTaylorExpansion(object):
             self.hess0 = deepcopy(hess0)
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
+        # The parameters must not share the memory of the base values.
+        self.set_par_to_base_values()
+
     # In order to calculate derivatives d^kinput_dhyper^k, we will be Taylor
     # expanding the gradient of the objective.
     def objective_gradient(self, input_val, hyper_val, *argv, **argk):
@@ -626,6 +629,9 @@ class ParametricSensitivityLinearApproximation(object):
             -1 * sp.linalg.cho_solve(
                 self.hess0_chol, self.hyper_par_cross_hessian0)
 
+        # The parameters must not share the memory of the base values.
+        self.set_par_to_base_values()
+
     # Methods:
     def get_dinput_dhyper(self):
         return self.hyper_par_sensitivity
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 530a349..4c01325 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -556,7 +556,7 @@ class ParametricSensitivity(object):
         self.optimal_hyper_par = deepcopy(self.hyper_par.get_vector())
         self.hyper_par_cross_hessian = \
             self.sensitivity_objective.fun_hessian_free1_vector2(
-                self.optimal_input_par, self.optimal_hyper_par)
+                self.optimal_input_par, deepcopy(self.optimal_hyper_par))
 
         self.optimal_output_par = deepcopy(
             self.parameter_converter.converter_free_to_vec(
-- 
2.43.0


From fdd5201874a2410da114cb4521fcb0e1d52cd23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 21/22] fix: Logger records a copy of the value too

---
 LinearResponseVariationalBayes/SparseObjectives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 4c01325..88645cd 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -65,9 +65,11 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
-        self.value = value
-        # The optimizer may reuse the memory of x for its next iterate.
+        # The caller may reuse the memory of the value, and the optimizer that
+        # of x for its next iterate.
+        value = deepcopy(value)
         x = deepcopy(x)
+        self.value = value
         self.x = x
         self.x_array.append(x)
         self.val_array.append(value)
-- 
2.43.0


From 3b074442279a20229d1d4f6dc47960039012b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 22/22] fix: a simplex of one category has Jacobians and
 Hessians

---
 LinearResponseVariationalBayes/SimplexParams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/SimplexParams.py b/LinearResponseVariationalBayes/SimplexParams.py
index 5828e26..fb9c65b 100644
--- a/LinearResponseVariationalBayes/SimplexParams.py
+++ b/LinearResponseVariationalBayes/SimplexParams.py
@@ -107,7 +107,7 @@ class SimplexParam(object):
         jac_rows = []
         jac_cols = []
         grads = []
-        free_cols = range(self.free_shape()[1])
+        free_cols = np.arange(self.free_shape()[1])
         vec_cols = range(self.shape()[1])
         for row in range(self.shape()[0]):
             # Each of the output depends only on one row of the input.
@@ -127,7 +127,7 @@ class SimplexParam(object):
 
 
     def free_to_vector_hess(self, free_val):
-        free_cols = range(self.free_shape()[1])
+        free_cols = np.arange(self.free_shape()[1])
         vec_cols = range(self.shape()[1])
         hesses = []
         hess_shape = (self.free_size(), self.free_size())
-- 
2.43.0

