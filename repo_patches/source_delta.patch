From ef10d17f6d9b4867aff143a0809d40c826ca8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 01/28] fix: change kernels evaluate their linked sub-kernel
 copies rather than the unlinked constructor arguments

---
 GPy_ABCD/Kernels/changeOperators.py          | 3 +--
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 3 +--
 GPy_ABCD/Kernels/changeWindowThreePart.py    | 4 +---
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index 0029514..d9345e2 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -15,8 +15,7 @@ class ChangeKernelBase(CombinationKernel):
     def __init__(self, first, second, sigmoidal, location: float = 0., slope: float = 0.5, name = 'change_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeKernelBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies, not the arguments
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index fc81511..ab99ee9 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -16,8 +16,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
                  name = 'change_window_shifted_sides_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeWindowShiftedSidesBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies, not the arguments
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowThreePart.py b/GPy_ABCD/Kernels/changeWindowThreePart.py
index 41ef1b0..e4129b5 100644
--- a/GPy_ABCD/Kernels/changeWindowThreePart.py
+++ b/GPy_ABCD/Kernels/changeWindowThreePart.py
@@ -17,9 +17,7 @@ class ChangeWindowIndependentBase(CombinationKernel):
         third = deepcopy(first) if third is None else third
         _newkerns = [kern.copy() for kern in (first, second, third)]
         super(ChangeWindowIndependentBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
-        self.third = third
+        self.first, self.second, self.third = _newkerns # I.e. the linked copies, not the arguments
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From d8166fbf42ff020821cccb7e499ec9dc9c9bb9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 02/28] fix: expanding the raw-string left branch of a change
 expression no longer replaces its right branch

---
 GPy_ABCD/KernelExpressions/change.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index 0c8afcc..b38ff9a 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -40,6 +40,7 @@ class ChangeKE(KernelExpression):
         # NOTE: this version adds new elements for raw string leaves (making them SumKE singletons); replace by comments to remove that behaviour
         res += self.left.traverse() if isinstance(self.left, KernelExpression) else [SumKE([self.left]).set_root(self.root).set_parent(self)]#[]
         res += self.right.traverse() if isinstance(self.right, KernelExpression) else [SumKE([self.right]).set_root(self.root).set_parent(self)]#[]
+        if not isinstance(self.left, KernelExpression): res[1].is_raw_left_leaf = True # So that reassign_child can tell it from the right one
         return res
 
     def reduce(self, func, acc):
@@ -69,7 +70,7 @@ class ChangeKE(KernelExpression):
         return all([ct.parent is self and ct._check_all_parents() for ct in [self.left, self.right] if isinstance(ct, KernelExpression)])
 
     def reassign_child(self, old_child, new_child):
-        if self.left is old_child: self.left = new_child # NOT A deepcopy!
+        if self.left is old_child or getattr(old_child, 'is_raw_left_leaf', False): self.left = new_child # NOT A deepcopy!
         else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0


From 59d635f0816a689c3f42ce316afd00fb8b92d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 03/28] fix: include the reversed sigmoidal's part in the
 change kernels' location, slope and width gradients

---
 GPy_ABCD/Kernels/changeOperators.py          | 18 +++++++++---------
 GPy_ABCD/Kernels/changeWindowShiftedSides.py |  9 +++++----
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index d9345e2..617a081 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -58,17 +58,17 @@ class ChangeKernelBase(CombinationKernel):
         return self.first.Kdiag(X) * self.sigmoidal_reverse.Kdiag(X) + self.second.Kdiag(X) * self.sigmoidal.Kdiag(X)
 
     # NOTE ON OPTIMISATION:
-    #   Should be able to get away with only optimising the parameters of one sigmoidal kernel and propagating them
+    #   Only one sigmoidal kernel's parameters are exposed and propagated to the other, therefore their gradients are the sums of both kernels' ones
 
     def update_gradients_full(self, dL_dK, X, X2 = None): # See NOTE ON OPTIMISATION
         self.second.update_gradients_full(dL_dK * self.sigmoidal.K(X, X2), X, X2)
         self.sigmoidal.update_gradients_full(dL_dK * self.second.K(X, X2), X, X2)
 
         self.first.update_gradients_full(dL_dK * self.sigmoidal_reverse.K(X, X2), X, X2)
-        # self.sigmoidal_reverse.update_gradients_full(dL_dK * self.first.K(X, X2), X, X2)
+        self.sigmoidal_reverse.update_gradients_full(dL_dK * self.first.K(X, X2), X, X2)
 
-        self.location.gradient = self.sigmoidal.location.gradient# + self.sigmoidal_reverse.location.gradient
-        if not self._fixed_slope: self.slope.gradient = self.sigmoidal.slope.gradient# + self.sigmoidal_reverse.slope.gradient
+        self.location.gradient = self.sigmoidal.location.gradient + self.sigmoidal_reverse.location.gradient
+        if not self._fixed_slope: self.slope.gradient = self.sigmoidal.slope.gradient + self.sigmoidal_reverse.slope.gradient
 
 
     def update_gradients_diag(self, dL_dK, X): # See NOTE ON OPTIMISATION
@@ -76,10 +76,10 @@ class ChangeKernelBase(CombinationKernel):
         self.sigmoidal.update_gradients_diag(dL_dK * self.second.Kdiag(X), X)
 
         self.first.update_gradients_diag(dL_dK * self.sigmoidal_reverse.Kdiag(X), X)
-        # self.sigmoidal_reverse.update_gradients_diag(dL_dK * self.first.Kdiag(X), X)
+        self.sigmoidal_reverse.update_gradients_diag(dL_dK * self.first.Kdiag(X), X)
 
-        self.location.gradient = self.sigmoidal.location.gradient# + self.sigmoidal_reverse.location.gradient
-        if not self._fixed_slope: self.slope.gradient = self.sigmoidal.slope.gradient# + self.sigmoidal_reverse.slope.gradient
+        self.location.gradient = self.sigmoidal.location.gradient + self.sigmoidal_reverse.location.gradient
+        if not self._fixed_slope: self.slope.gradient = self.sigmoidal.slope.gradient + self.sigmoidal_reverse.slope.gradient
 
 
 class ChangePointKernel(ChangeKernelBase):
@@ -114,11 +114,11 @@ class ChangeWindowKernel(ChangeKernelBase):
 
     def update_gradients_full(self, dL_dK, X, X2 = None):
         super(ChangeWindowKernel, self).update_gradients_full(dL_dK, X, X2)
-        self.width.gradient = self.sigmoidal.width.gradient# + self.sigmoidal_reverse.width.gradient # See NOTE ON OPTIMISATION in ChangeKernelBase
+        self.width.gradient = self.sigmoidal.width.gradient + self.sigmoidal_reverse.width.gradient # See NOTE ON OPTIMISATION in ChangeKernelBase
 
     def update_gradients_diag(self, dL_dK, X):
         super(ChangeWindowKernel, self).update_gradients_diag(dL_dK, X)
-        self.width.gradient = self.sigmoidal.width.gradient# + self.sigmoidal_reverse.width.gradient # See NOTE ON OPTIMISATION in ChangeKernelBase
+        self.width.gradient = self.sigmoidal.width.gradient + self.sigmoidal_reverse.width.gradient # See NOTE ON OPTIMISATION in ChangeKernelBase
 
 class ChangeWindowKernelCorrectedWidth(ChangeKernelBase):
     """Composite kernel changing from first to second subkernels at a limited location"""
diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index ab99ee9..54ffa77 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -101,15 +101,16 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
         self.sigmoidal_indicator.update_gradients_full(dL_dK * self.second.K(X, X2), X, X2)
 
         self.first.update_gradients_full(dL_dK * (self.sigmoidal_reverse.K(X, X2) + self.sigmoidal.K(X, X2)), X, X2)
-        # self.sigmoidal_reverse.update_gradients_full(dL_dK * self.first.K(X, X2), X, X2)
+        self.sigmoidal_reverse.update_gradients_full(dL_dK * self.first.K(X, X2), X, X2)
+        self.sigmoidal.update_gradients_full(dL_dK * (self.first.K(X, X2) + self.shift_variance), X, X2)
 
         self.shift_variance.gradient = np.sum(dL_dK * self.sigmoidal.K(X, X2)) # This is for the single variable case
         # self.shift.update_gradients_full(dL_dK * self.sigmoidal.K(X, X2), X, X2)
         # # self.sigmoidal.update_gradients_full(dL_dK * (self.first.K(X, X2) + self.shift.K(X, X2)), X, X2)
 
-        self.location.gradient = self.sigmoidal_indicator.location.gradient# + self.sigmoidal_reverse.location.gradient + (self.sigmoidal.location.gradient - self.sigmoidal_indicator.width.gradient)
-        if not self._fixed_slope: self.slope.gradient = self.sigmoidal_indicator.slope.gradient# + self.sigmoidal_reverse.slope.gradient + self.sigmoidal.slope.gradient
-        self.width.gradient = self.sigmoidal_indicator.width.gradient# + (self.sigmoidal.location.gradient - self.sigmoidal_indicator.location.gradient)
+        self.location.gradient = self.sigmoidal_indicator.location.gradient + self.sigmoidal_reverse.location.gradient + self.sigmoidal.location.gradient
+        if not self._fixed_slope: self.slope.gradient = self.sigmoidal_indicator.slope.gradient + self.sigmoidal_reverse.slope.gradient + self.sigmoidal.slope.gradient
+        self.width.gradient = self.sigmoidal_indicator.width.gradient + self.sigmoidal.location.gradient # The sigmoidal's location is location + width
         # self.shift_variance.gradient = self.shift.variance.gradient
 
 
-- 
2.43.0


From 081d38a461b5ef981d7c700780dd39f708b26526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 04/28] fix: cross-covariance gradients of the offset of LIN
 and of the sigmoidal kernels (X2 given)

---
 GPy_ABCD/Kernels/linearOffsetKernel.py |  2 +-
 GPy_ABCD/Kernels/sigmoidalKernels.py   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GPy_ABCD/Kernels/linearOffsetKernel.py b/GPy_ABCD/Kernels/linearOffsetKernel.py
index 7eece4e..311ddbc 100644
--- a/GPy_ABCD/Kernels/linearOffsetKernel.py
+++ b/GPy_ABCD/Kernels/linearOffsetKernel.py
@@ -67,7 +67,7 @@ class LinearWithOffset(Kern):
     def update_gradients_full(self, dL_dK, X, X2=None):
         if X2 is None: X2 = X
         dK_dV = (X - self.offset) * (X2 - self.offset).T
-        dK_do = self.variance * (2 * self.offset - X - X2)
+        dK_do = self.variance * (2 * self.offset - X - X2.T)
 
         self.variance.gradient = np.sum(dL_dK * dK_dV)
         self.offset.gradient   = np.sum(dL_dK * dK_do)
diff --git a/GPy_ABCD/Kernels/sigmoidalKernels.py b/GPy_ABCD/Kernels/sigmoidalKernels.py
index feb5ae0..7fca4ec 100644
--- a/GPy_ABCD/Kernels/sigmoidalKernels.py
+++ b/GPy_ABCD/Kernels/sigmoidalKernels.py
@@ -126,13 +126,13 @@ def _update_gradients_full_S_2(variance, location, slope, _fixed_slope, phi1, ph
     sig_d, sig_d2 = _sigmoid_function_d(arg), _sigmoid_function_d(arg2)
 
     dphi1_dl, dphi2_dl = sig_d / (-slope), sig_d2 / (-slope)
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = sig_d * (-arg / slope)
         dphi2_ds = sig_d2 * (-arg2 / slope)
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
@@ -207,19 +207,19 @@ def _update_gradients_full_SI(variance, location, slope, width, reverse, _fixed_
 
     dphi1_dl = ((- sig_d + sig_dW) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
     dphi2_dl = ((- sig_d2 + sig_dW2) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = ((sig_d * arg + sig_dW * argW) / (-slope)) * inv_height + numerator1 * dinvheight_ds
         dphi2_ds = ((sig_d2 * arg2 + sig_dW2 * argW2) / (-slope)) * inv_height + numerator2 * dinvheight_ds
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
     dphi1_dw = (sig_dW / slope) * inv_height + numerator1 * dinvheight_dw # d(asc)_dw = 0
     dphi2_dw = (sig_dW2 / slope) * inv_height + numerator2 * dinvheight_dw # d(asc)_dw = 0
-    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + phi2.dot(dphi1_dw.T))).sum()
+    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + dphi1_dw.dot(phi2.T))).sum()
     if np.isnan(width_gradient): width_gradient = 0.0
 
     if reverse: # Works this simply (a single sign flip per product above)
-- 
2.43.0


From 427f0f5c61693dc224fa714537ec9112b23b404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 05/28] fix: sum_of_prods_form of sums and products with only
 composite terms (which have no parameters of their own)

---
 GPy_ABCD/KernelExpressions/commutatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 46bedf9..ffbaa36 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -36,7 +36,7 @@ class SumKE(SumOrProductKE):
         return self
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not self.base_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         cts = [ct.sum_of_prods_form() for ct in self.composite_terms]
         self.composite_terms.clear()
         for ct in cts: # Only SumKEs or ProductKEs now
@@ -134,7 +134,7 @@ class ProductKE(SumOrProductKE):
         return ProductKE([]).new_bases_with_parameters([(key, p) for kex in [k0] + ks for key, ps in list(kex.parameters.items()) for p in ps])
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not self.base_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         sops = SumKE([])
         if not self.composite_terms:
             sops.composite_terms.append(ProductKE(self.base_terms)._new_parameters(self.parameters)) # Avoid triggering simplify()
-- 
2.43.0


From b56db70166d2704f9b0e37b5b63b17fc76886f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 06/28] fix: lengthscale of a product of SEs in
 simplify_base_terms_params

---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index ffbaa36..ff614e1 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -97,7 +97,7 @@ class ProductKE(SumOrProductKE):
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
         if 'SE' in self.parameters and len(self.parameters['SE']) > 1:
-            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc + l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
+            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc * l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
         return self
 
     def match_up_fit_parameters(self, param_dict, prefix = ''):
-- 
2.43.0


From 2955385d9c4574ceaa8d50d74dbe93652c93348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 07/28] fix: keep the LIN factors' parameters in products with
 WN (which is absorbing only for stationary kernels)

---
 GPy_ABCD/KernelExpressions/commutatives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index ff614e1..b85fb38 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -92,7 +92,8 @@ class ProductKE(SumOrProductKE):
     def simplify_base_terms_params(self):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
-                if bt not in ['WN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+                if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+            self.parameters['WN'] = [dict()]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From c39a5f48a24a8cf39620bdd674eaecc80c94eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 08/28] fix: swap_base no longer adds an extra term when
 swapping a base term for itself

---
 GPy_ABCD/KernelExpansion/kernelExpressionOperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
index 0414a18..5c50c5a 100644
--- a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
@@ -84,7 +84,7 @@ def multiply(k1, k2, with_nested_case = True): # Simple multiplication, NOT DIST
 def swap_base(S, B):
     res = []
     if isinstance(S, SumKE) or isinstance(S, ProductKE):
-        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys()]
+        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B] # Swapping a base term for itself is not a change
     elif isinstance(S, ChangeKE):
         res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
         res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
-- 
2.43.0


From 902afcf0927b4082d837e0e9b6cb811d1140f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 09/28] fix: a C in a product absorbed into another product is
 no longer dropped when it is the only factor

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 1f4c1a8..c85d8af 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -57,11 +57,11 @@ class SumOrProductKE(KernelExpression): # Abstract
     def absorb_homogeneous_composites(self):
         homogeneous_composites = [ct for ct in self.composite_terms if isinstance(ct, type(self))] # Annoyingly less problematic than lambda-using-self filter
         for hc in homogeneous_composites:
-            self.base_terms.update(hc.base_terms)
-            self.simplify_base_terms()
+            self.composite_terms.remove(hc) # Before simplifying, since whether C is the only factor depends on the term count
             for hcct in hc.composite_terms: hcct.parent = self
             self.composite_terms += hc.composite_terms
-            self.composite_terms.remove(hc)
+            self.base_terms.update(hc.base_terms)
+            self.simplify_base_terms()
         return self
 
     def traverse(self):
-- 
2.43.0


From ce95a18285b08ca2df228cb99b4fba430237e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 10/28] fix: KeyError on the slope of reversed sigmoidal
 intervals when intersecting them

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0fc42de..d820330 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -156,16 +156,16 @@ def intersect_segment_semiline(segment, semiline, res = None):
 def intersect_segment_hole(segment, hole, res = []):
     if segment['start'] < hole['end']:
         if segment['end'] < hole['end']: res.append(segment)
-        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['slope']})
+        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['end_slope']})
     if segment['end'] > hole['start']:
         if segment['start'] > hole['start']: res.append(segment)
-        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['slope'], 'end_slope': segment['end_slope']})
+        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['start_slope'], 'end_slope': segment['end_slope']})
     return res
 
 def intersect_semiline_hole(semiline, hole, res = []):
     if 'start' not in semiline:
         if hole['end'] < semiline['end']:
-            res.append({'end': hole['end'], 'end_slope': hole['slope']})
+            res.append({'end': hole['end'], 'end_slope': hole['end_slope']})
             if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'], 'start_slope': hole['start_slope'], 'end_slope': semiline['end_slope']})
         else: res.append(semiline)
     else: # elif 'end' not in semiline:
-- 
2.43.0


From c3ea5dadc25275cd4b266c22a2f01a03f29def2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 11/28] fix: empty sigmoidal interval intersections crashed, or
 left the interpretation without its interval

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index d820330..3a5004a 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -71,6 +71,7 @@ def postmodifier_interpretation(bps):
             else: res = 'with linearly varying amplitude'
     elif b == 'sigmoidal_intervals':
         if not isinstance(ps, list): ps = [ps]
+        if not ps: return 'nowhere'
         interval_ress = []
         for interval in ps:
             if 'start' not in interval:
@@ -130,7 +131,7 @@ def SI_overlap(SI_params):
     start = S_overlap(SI_params)
     end = Sr_overlap(SI_params)
     interval = {'start': start['start'], 'end': end['end'], 'start_slope': start['start_slope'], 'end_slope': end['end_slope']}
-    return interval if interval['end'] > interval['start'] else None
+    return interval if interval['end'] > interval['start'] else [] # I.e. no interval
 
 def SIr_overlap_step(acc, p): # Acc is a list of dictionaries representing intervals
     new_acc = []
@@ -182,9 +183,8 @@ def intersect_semiline_hole(semiline, hole, res = []):
 def simplify_sigmoidal_intervals(sigmoidals): return reduce(simplify_sigmoidal_intervals_step, sigmoidals.items())[1]
 
 def simplify_sigmoidal_intervals_step(acc, new):
-    if acc is None: return acc
-    step_res = simplify_sigmoidal_interval_pair(acc, new)
-    return None if step_res is None else identify_interval_type(step_res)
+    if acc[1] == [] or new[1] == []: return identify_interval_type([]) # I.e. the intersection is already empty
+    return identify_interval_type(simplify_sigmoidal_interval_pair(acc, new))
 
 # Intersect two DIFFERENT TYPES of sigmoid parameters (apply after reducing same type ones)
 def simplify_sigmoidal_interval_pair(b_ips1, b_ips2): # Arguments are tuples of (sigmoid_str, parameters)
-- 
2.43.0


From 2c26d908d017e8285ece4bda5fc543226dd9ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 12/28] fix: two-sided intervals mention their slopes when
 these are free rather than when fixed

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 3a5004a..a446b72 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -82,7 +82,7 @@ def postmodifier_interpretation(bps):
                 else: interval_ress.append('from {:.2f} (with change slope {:.2f})'.format(interval['start'], interval['start_slope']))
             else:
                 interval_ress.append('between {:.2f} and {:.2f}'.format(interval['start'], interval['end']))
-                if __FIX_SIGMOIDAL_KERNELS_SLOPE:
+                if not __FIX_SIGMOIDAL_KERNELS_SLOPE:
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-- 
2.43.0


From 0d314d21cbf6f3d63a9a2e4f4613bdb01b42bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 13/28] fix: refitting a model no longer leaves the previous
 fit's sum-of-products form and interpretation

---
 GPy_ABCD/Models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index 37762bd..c669ef1 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -25,6 +25,7 @@ class GPModel():
         if restarts is None:
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
+        self._sum_of_prods_kex = None # No longer matching the model
         self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
-- 
2.43.0


From 410ee80e684200e36dc0f72b46cc4fed38f3a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 14/28] fix: verbose searches crashed on rounds with nothing to
 list (or zero rounds), and continued ones reported an earlier round

---
 GPy_ABCD/Models/modelSearch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 000046b..ba2fcf0 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -20,7 +20,7 @@ from GPy_ABCD.Util.genericUtil import flatten, diff, unique
 
 
 def print_k_list(k_or_model_list):
-    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
+    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if k_or_model_list and isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
 
 
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
@@ -96,13 +96,13 @@ def explore_model_space(X, Y,
     elif isinstance(beam, int): beam = [beam] * rounds
     else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
 
-    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
+    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {sum(beam[:1])} moving forward]: {print_k_list(not_expanded[:sum(beam[:1])])}')
 
     sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = model_search_rounds(X, Y,
                         sorted_models, tested_models, tested_k_exprs, expanded, not_expanded,
                         model_list_fitter, p_rules, utility_function, rounds, beam, restarts, optimiser, max_retries, verbose)
 
-    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:beam[0]])}\n')
+    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:sum(beam[:1])])}\n')
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
 
@@ -126,7 +126,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
         not_expanded = diff(sorted_models, expanded) # More efficient than sorting another whole list
         tested_k_exprs += new_k_exprs
 
-        if verbose: print(f'Round-{r} models [{len(tested_models[r])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[r][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
+        if verbose: print(f'Round-{r} models [{len(tested_models[-1])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[-1][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
 
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
-- 
2.43.0


From 413e08fa4f15515cbe0fcbcd1f65ddb9ca91ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 15/28] fix: standardise the start kernels like the expansions,
 or an equivalent expression may be fitted again

---
 GPy_ABCD/KernelExpansion/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/grammar.py b/GPy_ABCD/KernelExpansion/grammar.py
index 92d8104..42758d8 100644
--- a/GPy_ABCD/KernelExpansion/grammar.py
+++ b/GPy_ABCD/KernelExpansion/grammar.py
@@ -111,7 +111,7 @@ def pseudo_to_real_kex(pkex):
     if isinstance(pkex, KernelExpression): return pkex
     elif pkex in base_kerns: return SumKE([pkex])
     else: raise ValueError(f'Given pseudo-kernel-expression value could not be parsed: {pkex}')
-def make_simple_kexs(pseudo_kexs): return [pseudo_to_real_kex(pkex)._initialise() for pkex in pseudo_kexs]
+def make_simple_kexs(pseudo_kexs): return [standardise_singleton_root(pseudo_to_real_kex(pkex)._initialise()) for pkex in pseudo_kexs]
 
 
 # Default groups
-- 
2.43.0


From 3f10f4e3982eadfe5cce377120acf3ec87b25978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 16/28] fix: diff ignored all elements after the first one
 absent from its first argument

---
 GPy_ABCD/Util/genericUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Util/genericUtil.py b/GPy_ABCD/Util/genericUtil.py
index ac999f0..6b19a92 100644
--- a/GPy_ABCD/Util/genericUtil.py
+++ b/GPy_ABCD/Util/genericUtil.py
@@ -108,9 +108,9 @@ def eq_elems_h(xs: Iterable[_a], ys: Iterable[_a]) -> bool: return set(xs) == se
 
 def diff(xs: Iterable[_a], ys: Iterable[_a]) -> List[_a]:
     cxs = list(xs) # make a mutable copy
-    try:
-        for y in ys: cxs.remove(y)
-    except ValueError: pass
+    for y in ys:
+        try: cxs.remove(y)
+        except ValueError: pass # I.e. nothing to remove for this y
     return cxs
 def diff_h(xs: Iterable[_a], ys: Iterable[_a]) -> Set[_a]: return set(xs) - set(ys)
 
-- 
2.43.0


From ba889ce85a825d6889a8a932c69942f65d02382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 17/28] fix: data generators truncated values to integers when
 the first one was an integer

---
 GPy_ABCD/Util/dataAndPlottingUtil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Util/dataAndPlottingUtil.py b/GPy_ABCD/Util/dataAndPlottingUtil.py
index fcd0c0b..7db4fad 100644
--- a/GPy_ABCD/Util/dataAndPlottingUtil.py
+++ b/GPy_ABCD/Util/dataAndPlottingUtil.py
@@ -12,7 +12,7 @@ def gg_plot(X, Y, colour = 'blue'):
 
 def gg_f_plot(f, X, colour = 'blue'):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X)
+    Y = np.vectorize(f, otypes = [float])(X)
     df = pd.DataFrame({'X': X[:, 0], 'Y': Y[:, 0]})
     return ggplot(df) + geom_line(aes('X', 'Y'), color = colour)
 # print(gg_f_plot(lambda x: x**2, range(20)))
@@ -25,7 +25,7 @@ def cp_f_maker(f1, f2, cp, line_up = False):
     def cp_f_lined_up(x):
         if x < cp: return f1(x)
         else: return (f1(cp) - f2(cp)) + f2(x)
-    return np.vectorize(cp_f_lined_up if line_up else cp_f)
+    return np.vectorize(cp_f_lined_up if line_up else cp_f, otypes = [float])
 
 def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
     def cw_f(x):
@@ -35,12 +35,12 @@ def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
         if x < cw_start: return f1(x)
         elif x > cw_end: return (cw_f_lined_up(cw_end) - f1(cw_end)) + f1(x)
         else: return (f1(cw_start) - f2(cw_start)) + f2(x)
-    return np.vectorize(cw_f_lined_up if line_up else cw_f)
+    return np.vectorize(cw_f_lined_up if line_up else cw_f, otypes = [float])
 
 
 def generate_data(f, X, Y_weight = 1, noise_weight = 1):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
+    Y = np.vectorize(f, otypes = [float])(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
     return X, Y
 # X, Y = generate_data(lambda x: x**2, range(20))
 # print(gg_plot(X, Y))
-- 
2.43.0


From fff898b629a12526a3a5a96155d63d07e539d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 18/28] fix: copy composite terms separately, since repeated or
 nested arguments became one shared (mis-parametrised) node

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index c85d8af..6c41db7 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -12,7 +12,7 @@ class SumOrProductKE(KernelExpression): # Abstract
     def __init__(self, base_terms, composite_terms = [], root: KernelExpression = None, parent: KernelExpression = None, symbol = None, GPy_name = None):
         super().__init__(root, parent, GPy_name)
         self.base_terms = deepcopy(base_terms) if isinstance(base_terms, Counter) else Counter(base_terms)
-        self.composite_terms = deepcopy(composite_terms)
+        self.composite_terms = [deepcopy(ct) for ct in composite_terms] # Separately, since the same (or nested) expressions may be given more than once
         self.symbol = symbol
         # self.simplify_base_terms() # Activate only this instead of full simplify for some testing
         self.simplify()
-- 
2.43.0


From 6b153582167b9dda95ef353adbc438de5cc06870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 19/28] fix: sums and products inside one-term nodes were left
 unsimplified after removing a term

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 6c41db7..6e68d8a 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -35,7 +35,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def simplify(self):
         self.composite_terms = [ct.simplify() for ct in self.composite_terms]
-        return self.absorb_homogeneous_composites().absorb_singletons().simplify_base_terms()
+        return self.absorb_singletons().absorb_homogeneous_composites().simplify_base_terms() # In this order since the content of a singleton may be homogeneous
 
     @abstractmethod
     def simplify_base_terms(self):
-- 
2.43.0


From 7b3bd975b2bb3b398fc8a8f6962fcd0f856788ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 20/28] fix: the leave-one-out score had the sign of a
 likelihood, so that searches preferred the worst models

---
 GPy_ABCD/Util/modelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/modelUtil.py b/GPy_ABCD/Util/modelUtil.py
index d7b81d7..b2a4ed0 100644
--- a/GPy_ABCD/Util/modelUtil.py
+++ b/GPy_ABCD/Util/modelUtil.py
@@ -12,7 +12,7 @@ from GPy_ABCD.Models.model import GPModel
 def BIC(m, ll, n, k): return -2 * ll + k * np.log(n)
 def AIC(m, ll, n, k): return 2 * (-ll + k)
 def AICc(m, ll, n, k): return 2 * (-ll + k + (k**2 + k) / (n - k - 1)) # Assumes univariate model linear in its parameters and with normally-distributed residuals conditional upon regressors
-def LA_LOO(m, ll, n, k): return np.mean(m.inference_method.LOO(m.kern, m.X, m.Y, m.likelihood, m.posterior)) # See LOO method description for reference
+def LA_LOO(m, ll, n, k): return - np.mean(m.inference_method.LOO(m.kern, m.X, m.Y, m.likelihood, m.posterior)) # See LOO method for reference; it returns log predictive densities, hence the sign (the lower the score the better)
 
 
 # Allowed GPy optimisers ('lbfgsb' is the default)
-- 
2.43.0


From cf82e01344f41700dfbac9d8230cd9dcff437f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 21/28] fix: independent-sides change windows lost their shift
 in fitted expressions, sum-of-products forms and interpretations

---
 GPy_ABCD/KernelExpansion/kernelOperations.py |  3 ++-
 GPy_ABCD/KernelExpressions/change.py         | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelOperations.py b/GPy_ABCD/KernelExpansion/kernelOperations.py
index 55c927c..598a963 100644
--- a/GPy_ABCD/KernelExpansion/kernelOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelOperations.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 from GPy_ABCD.Kernels.baseKernels import *
-from GPy_ABCD.Kernels.baseKernels import __FIX_SIGMOIDAL_KERNELS_SLOPE
+from GPy_ABCD.Kernels.baseKernels import __FIX_SIGMOIDAL_KERNELS_SLOPE, __USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL
 
 
 # More efficient than eval(str) in the compositional evaluation (the other way if doing it one-off)
@@ -13,6 +13,7 @@ base_k_param_names = {k: {'name': v.name, 'parameters': v.parameter_names()} for
 base_k_param_names['CP'] = {'name': 'change_point', 'parameters': ['location']} if __FIX_SIGMOIDAL_KERNELS_SLOPE else {'name': 'change_point', 'parameters': ['location', 'slope']}
 base_k_param_names['CW'] = {'name': 'change_window', 'parameters': ['location', 'width']} if __FIX_SIGMOIDAL_KERNELS_SLOPE else {'name': 'change_window', 'parameters': ['location', 'slope', 'width']}
     # Nothing, 'stop_location' or 'width' depending on the used class
+if __USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL: base_k_param_names['CW']['parameters'].append('shift_variance')
 
 
 change_k_sigmoid_names = {'CP': {'left': 'Sr', 'right': 'S'}, 'CW': {'left': 'SIr', 'right': 'SI'}}
diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index b38ff9a..9f38c0e 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -115,13 +115,20 @@ class ChangeKE(KernelExpression):
             else: res = SumKE(+k1.base_terms, k1.composite_terms + [k2])._new_parameters(k1.parameters)
         return res._set_all_parents()
 
+    def _sigmoids_of_branches(self):
+        '''Branches along with the sigmoidals (and their parameters) they are multiplied by'''
+        ps = self.parameters[self.CP_or_CW][0]
+        if 'shift_variance' not in ps: return [(branch, (change_k_sigmoid_names[self.CP_or_CW][branch], ps)) for branch in ('left', 'right')]
+        before = {p: v for p, v in ps.items() if p not in ('width', 'shift_variance')} # Independent sides, i.e. separate sigmoidals instead of a reversed indicator one
+        return [('left', ('Sr', before)), ('left', ('S', {**before, 'location': ps['location'] + ps['width']})), ('right', ('SI', {p: v for p, v in ps.items() if p != 'shift_variance'}))]
+
     def sum_of_prods_form(self):
         assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         new_children = []
-        for branch, kex in (('left', self.left), ('right', self.right)):
-            sigmoid_parameters = (change_k_sigmoid_names[self.CP_or_CW][branch], self.parameters[self.CP_or_CW][0])
+        for branch, sigmoid_parameters in self._sigmoids_of_branches():
+            kex = deepcopy(getattr(self, branch)) # Since it is required twice if the sides are independent
             if isinstance(kex, str):
-                leaf_params = [self.parameters[k][0] for k in self.parameters.keys() if isinstance(k, tuple) and k[0] == branch][0]
+                leaf_params = [deepcopy(self.parameters[k][0]) for k in self.parameters.keys() if isinstance(k, tuple) and k[0] == branch][0]
                 new_children.append(ProductKE([]).new_bases_with_parameters([(kex, leaf_params), sigmoid_parameters]))
             else:
                 new_child = kex.sum_of_prods_form()
@@ -135,7 +142,9 @@ class ChangeKE(KernelExpression):
                         else: del match_ps[0]
                     new_child.base_terms.clear()
                 new_children.append(new_child)
-        return self.add_sum_of_prods_terms(new_children[0], new_children[1]).set_parent(self.parent).set_root(self.root)
+        if 'shift_variance' in self.parameters[self.CP_or_CW][0]: # The vertical shift of the right side
+            new_children.append(ProductKE([]).new_bases_with_parameters([('C', {'variance': self.parameters[self.CP_or_CW][0]['shift_variance']}), self._sigmoids_of_branches()[1][1]]))
+        return reduce(self.add_sum_of_prods_terms, new_children).set_parent(self.parent).set_root(self.root)
 
 
 # TODO:
-- 
2.43.0


From d24205532d95a99bfbef2badee75a85bb8997bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 22/28] fix: sample-curve plots missed their last curve (and
 were empty for a single one)

---
 GPy_ABCD/Util/kernelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index be7f07b..5888aeb 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -18,7 +18,7 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
     else: Z = np.array([np.random.multivariate_normal(mu, k.K(X, X)) for i in range(n_curves) if not k.randomize()]).T
 
     df = pd.DataFrame(np.concatenate((X, Z), 1), columns = ['X'] + [n + 1 for n in range(Z.shape[1])])
-    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(range(Z.shape[1]))[1:])) +\
+    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(range(1, Z.shape[1] + 1)))) +\
             geom_line(aes('X', 'value', color = 'variable'), show_legend = False)
 
 
-- 
2.43.0


From b4fbcf6c73aae396db9e70552eccaf4a531e5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 23/28] fix: a refitted model kept the score of its earlier fit

---
 GPy_ABCD/Models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index c669ef1..9283772 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -26,6 +26,7 @@ class GPModel():
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
         self._sum_of_prods_kex = None # No longer matching the model
+        self.cached_utility_function = self.cached_utility_function_type = None # Likewise
         self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
-- 
2.43.0


From 8e697896c0b65e6608c3e2dcc419a5c8abb02da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 24/28] fix: searches fitted (and expanded) equal start kernels
 more than once

---
 GPy_ABCD/Models/modelSearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index ba2fcf0..e973f31 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -80,7 +80,7 @@ def explore_model_space(X, Y,
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
     if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
 
-    start_kexs = make_simple_kexs(start_kernels)
+    start_kexs = unique(make_simple_kexs(start_kernels))
 
     if verbose: print(f'Testing {rounds} layers of model expansion on {len(X)} datapoints, starting from: {print_k_list(start_kexs)}\nModels are fitted with {restarts} random restarts (with {optimiser} optimiser) and scored by {utility_function.__name__}')
     def score(m): return m.compute_utility(utility_function)
-- 
2.43.0


From ab7b31d2d2ca43f7ebef4a1e0cdbf4ab33633e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 25/28] fix: continuing a search altered the outputs it was
 given, so that continuing from them again went wrong

---
 GPy_ABCD/Models/modelSearch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index e973f31..28dcc50 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -117,6 +117,8 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     '''
     def score(m): return m.compute_utility(utility_function)
 
+    tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded) # Leave the given outputs as they were
+
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
         tested_models.append(sorted(model_list_fitter(X, Y, new_k_exprs, restarts, optimiser, max_retries), key = score))  # tested_models[d]
-- 
2.43.0


From ebdbcfe5b7953247f747235b6eb4578db2029429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 26/28] fix: continuing a search did not accept the forms of
 data and beams which searches do

---
 GPy_ABCD/Models/modelSearch.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 28dcc50..154c013 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -45,6 +45,14 @@ def fit_mods_parallel_processes(X, Y, k_exprs, restarts = 5, optimiser = GPy_opt
     with Pool() as pool: return pool.starmap_async(fit_one_model, [(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1).get()
 
 
+def beam_per_round(beam, rounds):
+    '''Handle beam argument: ensure it is a list of integers of length rounds'''
+    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
+        return beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
+    elif isinstance(beam, int): return [beam] * rounds
+    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+
+
 def explore_model_space(X, Y,
                         start_kernels: List[Union[str, KernelExpression]] = start_kernels['Default'], p_rules: List[Callable] = production_rules['Default'],
                         utility_function: Callable = BIC, rounds: int = 2, beam: Union[int, List[int]] = [3, 2, 1], restarts: int = 5,
@@ -90,11 +98,7 @@ def explore_model_space(X, Y,
     expanded = []
     tested_k_exprs = deepcopy(start_kexs)
 
-    # Handle beam argument: ensure it is a list of integers of length rounds
-    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
-        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
-    elif isinstance(beam, int): beam = [beam] * rounds
-    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+    beam = beam_per_round(beam, rounds)
 
     if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {sum(beam[:1])} moving forward]: {print_k_list(not_expanded[:sum(beam[:1])])}')
 
@@ -115,6 +119,10 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
 
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
+    if len(np.shape(X)) == 1: X = np.array(X)[:, None]
+    if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
+    beam = beam_per_round(beam, rounds)
+
     def score(m): return m.compute_utility(utility_function)
 
     tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded) # Leave the given outputs as they were
-- 
2.43.0


From a65d802f29fcbce89345fdf6f052ea3cd2dc2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 27/28] fix: saving kernel samples failed (plots have no
 savefig) and ignored the given path

---
 GPy_ABCD/Util/kernelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index 5888aeb..7f34f2a 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -23,6 +23,6 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
 
 
 def saveKernelSamples(ks, names, path, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
-    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).savefig(f'{n}.png')
+    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).save(f'{n}.png', path = path, verbose = False)
 
 
-- 
2.43.0


From 5022cfa6fe5b6b6e05589e1c0864873d408604bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 28/28] fix: reassign_child replaces the given child itself and
 not the first one equal to it

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 6e68d8a..4b95c92 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -86,7 +86,7 @@ class SumOrProductKE(KernelExpression): # Abstract
         return all([ct.parent is self and ct._check_all_parents() for ct in self.composite_terms])
 
     def reassign_child(self, old_child, new_child):
-        self.composite_terms.remove(old_child)
+        self.composite_terms = [ct for ct in self.composite_terms if ct is not old_child] # By identity, since equal terms may be present
         self.composite_terms.append(new_child) # NOT A deepcopy!
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0

