From cb6675a3e80d9f00133eb43ae31e575944cf8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 01/36] fix: rightsolve: treat numerically zero singular values
 as zero

Only exactly zero singular values were left out, so a rank deficient A gave
results of size 1e15 instead of the minimum norm solution.
---
 src/tenkit/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..ade992b 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -8,7 +8,10 @@ def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
     U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
+    S_tol = max(A.shape) * S[0] * np.finfo(float).eps
+    should_keep = S > S_tol
+    S[should_keep] = 1/S[should_keep]
+    S[~should_keep] = 0
 
     return B @ (Vh.T * S @ U.T)
 
-- 
2.43.0


From 78905311a54171ccd7a5dec974f009b2afb27962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 02/36] fix: non_negative_rightsolve: accept a single row B

---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index ade992b..4025ac6 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -21,7 +21,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis, :]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From c56fe860b9e96bf034d26b60f2e3be336c0541de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 03/36] fix: EvolvingTensor can be loaded from HDF5 again

---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..745bf64 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From 4d66b13fdfc86890cbb85c552a651bd8b3374b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 04/36] fix: EvolvingTensor.from_kruskaltensor keeps the
 weights

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 745bf64..5a1cc58 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -334,7 +334,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
         if len(ktensor.factor_matrices) != 3:
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
-        A = ktensor.factor_matrices[0]
+        A = ktensor.factor_matrices[0]*ktensor.weights[np.newaxis]
         B = ktensor.factor_matrices[1]
         C = ktensor.factor_matrices[2]
 
-- 
2.43.0


From ea9dc76d8e9d8aaab5077db61e3316119727c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 05/36] fix: separate mode factor match score methods call
 functions that exist

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 5a1cc58..ceee4e1 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From 5a89942563fad51aab7a54effe522f4e315dcc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 06/36] fix: KruskalTensor.factor_match_score takes the
 component weights into account

The score of a decomposition against its own normalised copy (the same tensor)
was penalised, and differing weights were not.
---
 src/tenkit/decomposition/decompositions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index ceee4e1..aac45a1 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -208,11 +208,17 @@ class KruskalTensor(BaseDecomposedTensor):
     def __getitem__(self, item):
         return self.factor_matrices[item]
 
+    @property
+    def _weighted_factor_matrices(self):
+        """The factor matrices of the same tensor with unit weights.
+        """
+        return [self.factor_matrices[0]*self.weights[np.newaxis], *self.factor_matrices[1:]]
+
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        return metrics.factor_match_score(self.factor_matrices, 
-                                          decomposition.factor_matrices, 
+        return metrics.factor_match_score(self._weighted_factor_matrices, 
+                                          decomposition._weighted_factor_matrices, 
                                           weight_penalty=weight_penalty, 
                                           fms_reduction=fms_reduction)
     
-- 
2.43.0


From 9fb00d3b4aca3a81577054bccd097c46aeab4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 07/36] fix: KruskalTensor.core_consistency takes the component
 weights into account

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index aac45a1..db27646 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -279,7 +279,7 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        return metrics.core_consistency(X, *self._weighted_factor_matrices, normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From 5d39aa5c8fe52d438f447b2d789bf81819bcafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 08/36] fix: Parafac2Tensor scores and single components work
 for slices of unequal width

---
 src/tenkit/decomposition/decompositions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index db27646..1ac7e1c 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -693,8 +693,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
@@ -703,7 +703,7 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [B_k[:, component, np.newaxis] for B_k in self.B]
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
-- 
2.43.0


From 1a409c75257761db31b27b56b18e5000dbe94775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 09/36] fix: num_elements of evolving tensors counts all
 elements of the slices

The length of the first mode was left out, so the MSE of PARAFAC2 models was too
large by that factor.
---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 1ac7e1c..81c6acb 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -328,7 +328,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum((shape[0]*shape[1] for shape in self.slice_shapes))
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -605,7 +605,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From 3211a8c38cdb9e073c0ab1e3b419e727c7cde1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 10/36] fix: KruskalTensor weights may be given as integers

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 81c6acb..7aa3e57 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -125,7 +125,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'There must be as many weights as there are columns in the factor matrices.'
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
-        self.weights = np.asarray(weights)
+        self.weights = np.asarray(weights, dtype=float)
     
     @property
     def shape(self):
-- 
2.43.0


From 73c99a6cf4d897966432a26e99e8902aed60051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 11/36] fix: Parafac2Tensor.random_init does not switch off the
 warning for irregular tensors

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7aa3e57..9d8d5ac 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -658,7 +658,7 @@ class Parafac2Tensor(EvolvingTensor):
             projection_matrices.append(q[:, :rank])
 
         
-        return cls(A, blueprint_B, C, projection_matrices, all_same_size)
+        return cls(A, blueprint_B, C, projection_matrices)
 
     def store_in_hdf5_group(self, group):
         self._prepare_hdf5_group(group)
-- 
2.43.0


From b72801b3bb77414cc288587b4fde7b8972a76df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 12/36] fix: get_signs never returns a zero sign

A sign score of zero gave sign zero, which erases the component when applied.
---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 src/tenkit/utils.py                        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 9d8d5ac..dc7ea34 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -243,10 +243,10 @@ class KruskalTensor(BaseDecomposedTensor):
             ]
 
             for factor_num, factor_sign_score in enumerate(single_rank_sign_scores):
-                signs[factor_num][rank] = np.sign(factor_sign_score)
+                signs[factor_num][rank] = -1 if factor_sign_score < 0 else 1
 
             # Find the mode that should not be flipped
-            single_rank_signs = np.sign(single_rank_sign_scores)
+            single_rank_signs = [mode_signs[rank] for mode_signs in signs]
             if np.prod(single_rank_signs) == -1:
                 wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))
                 signs[wrongly_flipped][rank] *= -1
diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..658d1d3 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -186,7 +186,7 @@ def get_signs(factor_matrix, X):
         axis=1
     )
 
-    return np.sign(sign_weight), sign_weight
+    return np.where(sign_weight < 0, -1, 1), sign_weight
     
 def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
     fixed_evolving_factor = evolving_factor.copy()
-- 
2.43.0


From ff78b2c4d2515b9a784548c24251c06581c4d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 13/36] fix: the signfix functions call get_signs with the
 arguments it takes

They always raised a TypeError. The evolving factors are also copied before
they are flipped, whether they are an array, a list or a projected factor.
---
 src/tenkit/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 658d1d3..0eb7258 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -189,10 +189,11 @@ def get_signs(factor_matrix, X):
     return np.where(sign_weight < 0, -1, 1), sign_weight
     
 def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
-    fixed_evolving_factor = evolving_factor.copy()
+    fixed_evolving_factor = [factor.copy() for factor in evolving_factor]
     fixed_evolve_over_factor = evolve_over_factor.copy()
-    for k in range(len(evolving_factor)):
-        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
+    for k in range(len(fixed_evolving_factor)):
+        data_slice = data_tensor[k].T if data_driven else None
+        signs = get_signs(fixed_evolving_factor[k], data_slice)[0]
         
         fixed_evolving_factor[k] *= signs
         fixed_evolve_over_factor[k] *= signs
@@ -201,7 +202,7 @@ def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, d
 
 def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
     unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
-    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
+    signs = get_signs(fixing_factors, unfolded_data_tensor if data_driven else None)[0]
     
     return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
 
-- 
2.43.0


From 9314c0a93555656c6d8c0c803de4af8379c6237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 14/36] fix: create_data and create_non_negative_data do not
 use a function that is gone

---
 src/tenkit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 0eb7258..c7640a4 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -37,7 +37,7 @@ def create_random_factors(sizes, rank):
 
 def create_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
@@ -55,7 +55,7 @@ def create_random_uniform_factors(sizes, rank):
 
 def create_non_negative_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
-- 
2.43.0


From 11aae079c3e5c8e9771695ed85baf9e9fd39eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 15/36] fix: get_pca_loadings works for matrices with more
 columns than rows

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index c7640a4..9a2e4f5 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -22,7 +22,7 @@ def flip_factors(factor_matrices):
 def get_pca_loadings(Y, rank):
     """Returns the pca loadings of the Y matrix.
     """
-    U, S, Vh = np.linalg.svd(Y)
+    U, S, Vh = np.linalg.svd(Y, full_matrices=False)
     A = (Vh.T @ np.diag(S))[:, :rank]
     return A
 
-- 
2.43.0


From c639fc5469195e98b762973050b2e6ffa20524c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 16/36] fix: iter_checkpoints keeps the order of iterations
 beyond 99999

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 9a2e4f5..50c29e7 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -219,7 +219,7 @@ def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
     return fixed_evolving_tensor
 
 def iter_checkpoints(h5_checkpoint_file):
-    for groupname in sorted(h5_checkpoint_file):
+    for groupname in sorted(h5_checkpoint_file, key=lambda name: (len(name), name)):
         if groupname.startswith('checkpoint'):
             yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0


From 83c3c171d3e2f450bb80e310bddf727f51065879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 17/36] fix: CP error measures are not computed from an
 outdated cache

The cached matrix product was used after refitting (TypeError), setting a new
target, loading a checkpoint and normalising the fitted decomposition.
---
 src/tenkit/decomposition/cp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..06abb98 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -395,6 +395,14 @@ class CP_ALS(BaseCP):
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
 
+    def set_target(self, X):
+        super().set_target(X)
+        self._last_updated_mode = None
+
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        self._last_updated_mode = None
+
     def _update_als_factors(self):
         """Updates factors with alternating least squares."""
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
@@ -423,6 +431,9 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
+        # The decomposition may be changed (e.g. normalised) from now on
+        self._last_updated_mode = None
+
         if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
             self.store_checkpoint()
 
-- 
2.43.0


From 64ff59b8af5181f700f407d92e0d8e0fb24b09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 18/36] fix: CP keeps the weights of the decomposition it is
 initialised with

---
 src/tenkit/decomposition/cp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 06abb98..360c322 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -335,6 +335,7 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.factor_matrices[0][...] = self.factor_matrices[0]*self.weights[np.newaxis]
         self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
-- 
2.43.0


From a005564db7f532dc8f96ec34aa935353dd879094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 19/36] fix: orthonormal initial factors are set in place and
 keep their signs

Replacing the array made the factors of a PARAFAC2 model with orthonormality
constraints diverge from those of its inner CP model, and the sign flips of qr
changed factors that were orthonormal already.
---
 src/tenkit/decomposition/cp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 360c322..a749daf 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -344,7 +344,8 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+                q, r = np.linalg.qr(fm)
+                fm[...] = q*np.where(np.diag(r) < 0, -1, 1)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 04cebe268b74d8fe44f7c0381cee4a78fff17745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 20/36] fix: constrained and regularised CP updates minimise
 the loss

The constrained solvers were given the normal equations instead of the least
squares problem itself, which has another constrained (or regularised) solution,
so the updates could increase the loss.
---
 src/tenkit/decomposition/cp.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index a749daf..72a98c9 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -353,8 +353,20 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    def _use_normal_equations(self, mode):
+        """The normal equations are only equivalent to the least squares problem
+        if there are no constraints and no penalty."""
+        return not (
+            self.non_negativity_constraints[mode]
+            or self.orthonormality_constraints[mode]
+            or (self.ridge_penalties is not None and self.ridge_penalties[mode])
+        )
+
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
+        if not self._use_normal_equations(skip_mode):
+            return base.khatri_rao(*self.factor_matrices, skip=skip_mode).T
+
         V = np.ones((self.rank, self.rank))
         for i, factor in enumerate(self.factor_matrices):
             if i == skip_mode:
@@ -363,6 +375,9 @@ class CP_ALS(BaseCP):
         return V
     
     def _get_als_rhs(self, mode):
+        if not self._use_normal_equations(mode):
+            return base.unfold(self.X, mode)
+
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
     def _get_rightsolve(self, mode):
@@ -392,7 +407,10 @@ class CP_ALS(BaseCP):
         rightsolve = self._get_rightsolve(mode)
 
         self._last_updated_mode = mode
-        self._matrix_khatri_rao_product_cache = rhs
+        if self._use_normal_equations(mode):
+            self._matrix_khatri_rao_product_cache = rhs
+        else:
+            self._matrix_khatri_rao_product_cache = rhs @ lhs.T
 
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
-- 
2.43.0


From 00d6356fed26ca6083d5a3a5159719f6c9be300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 21/36] fix: the last iteration is checkpointed once, and
 resumed fits go on after it

The final state was stored or left out depending on an off by one, under the
number of iterations instead of the iteration's index (so that continued and
resumed fits failed because the name was taken), and not at all without a
frequency. CP failed if no iteration was left, and resuming repeated the stored
iteration.
---
 src/tenkit/decomposition/base_decomposer.py | 33 +++++++++++++++------
 src/tenkit/decomposition/cmtf.py            | 11 +------
 src/tenkit/decomposition/cp.py              |  6 ++--
 src/tenkit/decomposition/parafac2.py        | 10 ++-----
 4 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..9c7e4ae 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -175,16 +175,19 @@ class BaseDecomposer(ABC):
             self.max_its = max_its
         self._fit()
     
-    def store_checkpoint(self):
+    def store_checkpoint(self, iteration=None):
+        if iteration is None:
+            iteration = self.current_iteration
+
         with h5py.File(self.checkpoint_path, 'a') as h5:
             if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
+                h5.attrs['checkpoint_its'] = [iteration]
             else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], iteration]
 
-            h5.attrs['final_iteration'] = self.current_iteration
+            h5.attrs['final_iteration'] = iteration
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            checkpoint_group = h5.create_group(f'checkpoint_{iteration:05d}')
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
@@ -206,7 +209,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -217,13 +219,26 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
+        self.current_iteration = int(load_it) + 1
     
+    def _is_checkpoint_iteration(self, iteration):
+        return self.checkpoint_frequency > 0 and (iteration+1) % self.checkpoint_frequency == 0
+
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        if self.checkpoint_path is not None and self._is_checkpoint_iteration(self.current_iteration):
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+        self.current_iteration += 1
+
+    def _after_fit(self, first_iteration):
+        """Store the last iteration, unless it was stored already or there was none.
+        """
+        last_iteration = self.current_iteration - 1
+        if self.checkpoint_path is None or last_iteration < first_iteration:
+            return
+
+        if not self._is_checkpoint_iteration(last_iteration):
+            self.store_checkpoint(last_iteration)
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..547b713 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -1,4 +1,3 @@
-import h5py
 import numpy as np
 from .cp import CP_ALS
 
@@ -8,15 +7,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
+    #TODO: store the matrices as well when storing checkpoints
 
     @property
     def coupled_factor_matrices(self):
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 72a98c9..5f0c7bf 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -436,7 +436,8 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
-        for it in range(self.max_its - self.current_iteration):
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
                 abs(self._rel_function_change) < self.convergence_tol 
@@ -454,8 +455,7 @@ class CP_ALS(BaseCP):
         # The decomposition may be changed (e.g. normalised) from now on
         self._last_updated_mode = None
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..04aec58 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -389,7 +389,8 @@ class Parafac2_ALS(BaseParafac2):
     def _fit(self):
 
         self._prepare_cp_decomposer()
-        for it in range(self.max_its - self.current_iteration):
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
 
@@ -402,12 +403,7 @@ class Parafac2_ALS(BaseParafac2):
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From 4be0b96560a2ab9c72dcb1058c4c6d7953b70752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 22/36] fix: Parafac2 fit_transform passes its arguments on to
 fit

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 04aec58..256aae9 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -205,7 +205,7 @@ class BaseParafac2(BaseDecomposer):
         self._fit()
 
     def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition
 
     @property
-- 
2.43.0


From c1ddbaaa911d974e919cbb4bfdf36e7bb2920842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 23/36] fix: SVD initialisation of PARAFAC2 models works

It always failed, using the list of slice widths as a width and loadings of the
second mode for the first.
---
 src/tenkit/decomposition/parafac2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 256aae9..295fe12 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,19 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
         K = self.X_shape[2]
         J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        I = self.X_shape[0]
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J[k], self.rank) for k in range(K)]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From fab7f266aecfda213b6919438a012017831a0b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 24/36] fix: CMTF with non-negativity constraints does not call
 a missing method

---
 src/tenkit/decomposition/cmtf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 547b713..96aefdb 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -137,10 +137,7 @@ class CMTF_ALS(CP_ALS):
     def _update_als_factors(self):
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+            self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
-- 
2.43.0


From 2b2200d12913f31e7371aef832f1ac33dc618a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 25/36] fix: CMTF MSE is the mean over the elements of the data

---
 src/tenkit/decomposition/cmtf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 96aefdb..602fdb1 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -38,7 +38,7 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
-- 
2.43.0


From 4c97120ea3cc5e90804b48c10d66827cc249f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 26/36] fix: CMTF uses all matrices that are coupled to the
 same mode

---
 src/tenkit/decomposition/cmtf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 602fdb1..f3d027d 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -143,25 +143,23 @@ class CMTF_ALS(CP_ALS):
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
-            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
-            return np.concatenate([khatri_rao_product, V], axis=0).T
+            Vs = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
+            return np.concatenate([khatri_rao_product, *Vs], axis=0).T
         else:
             return super()._get_als_lhs(mode)
     
     def _get_als_rhs(self, mode):
         if mode in self.mode_to_cm_idx:
             unfolded_X = base.unfold(self.X, mode)
-            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
+            coupled_Ys = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
 
-            return np.concatenate([unfolded_X, coupled_Y], axis=1)
+            return np.concatenate([unfolded_X, *coupled_Ys], axis=1)
         else:
             return super()._get_als_rhs(mode)
 
 
     def _update_uncoupled_matrix_factors(self):
-        for mode, cm_idx in self.mode_to_cm_idx.items():
-            cm_idx = self.mode_to_cm_idx[mode][0]
-            
+        for cm_idx, mode in enumerate(self.coupling_modes):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-- 
2.43.0


From 88f57829b297d85ca5c34f74db7daf75099bf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 27/36] fix: CMTF loss includes the ridge penalties its updates
 use

---
 src/tenkit/decomposition/cmtf.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index f3d027d..9ebc6fe 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -45,10 +45,6 @@ class CMTF_ALS(CP_ALS):
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From a0fbd9205a996bd62104e20aa64d888f841c26f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 28/36] fix: CMTF fits take the component weights into account

The updates assume unit weights, but the components are normalised before and
after fitting, so given starting points and continued fits were ruined.
---
 src/tenkit/decomposition/cmtf.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 9ebc6fe..30aadd1 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -69,8 +69,21 @@ class CMTF_ALS(CP_ALS):
         self.decomposition.normalize_components()
 
     def _fit(self):
+        self._absorb_weights()
         super()._fit()
         self._normalize_components()
+
+    def _absorb_weights(self):
+        """Move the weights, which the updates do not use, into a factor matrix.
+        """
+        uncoupled_modes = [mode for mode in range(len(self.factor_matrices)) if mode not in self.mode_to_cm_idx]
+        mode = uncoupled_modes[0] if uncoupled_modes else 0
+        weights = np.where(self.weights == 0, 1, self.weights)
+        self.factor_matrices[mode][...] = self.factor_matrices[mode]*weights
+        for cm_idx in self.mode_to_cm_idx.get(mode, []):
+            V = self.uncoupled_factor_matrices[cm_idx]
+            V[...] = V/weights
+        self.decomposition.reset_weights()
     
     def _normalize_components(self):
         for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
-- 
2.43.0


From d545545e59b36f669b11a43e0060dd246241a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 29/36] fix: refuse initial CP components with the wrong number
 of modes

---
 src/tenkit/decomposition/cp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 5f0c7bf..b8dddab 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -114,6 +114,11 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        if len(decomposition.factor_matrices) != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({len(decomposition.factor_matrices)}) is not the same as the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
-- 
2.43.0


From 028eb2b4d6c5a6e640615ee8f981846c6c23120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:50 +0000
Subject: [PATCH 30/36] fix: refuse initial PARAFAC2 components with the wrong
 number of projection matrices

---
 src/tenkit/decomposition/parafac2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 295fe12..f8de4ed 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -160,6 +160,11 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if len(decomposition.B) != len(self.X):
+            raise ValueError(
+                f"The number of B_k matrices ({len(decomposition.B)}) is not the same as the number of slices of X ({len(self.X)})"
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From 80f4c4e2f995b2ea1bc4e9c6d729d18f23b387bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 31/36] fix: decompositions given integer factor matrices are
 stored as floating point

Normalising, fitting or continuing from such a decomposition updates the
factors in place, which truncated every result to an integer.
---
 src/tenkit/decomposition/decompositions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index dc7ea34..d26bce4 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -9,6 +9,13 @@ from .. import utils
 __all__ = ['KruskalTensor', 'EvolvingTensor', 'Parafac2Tensor']
 
 
+def _as_float(factor_matrix):
+    # Factor matrices are updated in place, so integers cannot hold the result.
+    if np.issubdtype(factor_matrix.dtype, np.integer):
+        return factor_matrix.astype(float)
+    return factor_matrix
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -116,7 +123,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = factor_matrices
+        self.factor_matrices = [_as_float(factor_matrix) for factor_matrix in factor_matrices]
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -596,11 +603,11 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = A
-        self._blueprint_B = blueprint_B
-        self._C = C
-        self._projection_matrices = tuple(projection_matrices)
-        self._B = ProjectedFactor(blueprint_B, self._projection_matrices)
+        self._A = _as_float(A)
+        self._blueprint_B = _as_float(blueprint_B)
+        self._C = _as_float(C)
+        self._projection_matrices = tuple(_as_float(projection_matrix) for projection_matrix in projection_matrices)
+        self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
-- 
2.43.0


From c513350f63ef9691f6017c2cdf6bb0787f4c2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 32/36] fix: flip the signs of integer factor matrices

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 50c29e7..2999bfa 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -14,7 +14,7 @@ def flip_factors(factor_matrices):
             if s == 0:
                 sign[k] = _find_first_nonzero_sign(factor[:, k])
 
-        factor_matrices[i] *= sign
+        factor_matrices[i] = factor_matrices[i]*sign
         signs.append(sign)
     return factor_matrices, signs
 
-- 
2.43.0


From 672286c3608cb5069277035e671890d6f4dbbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 33/36] fix: a CP or CMTF model without constraints can be
 refitted to data with more modes

---
 src/tenkit/decomposition/cmtf.py |  5 +----
 src/tenkit/decomposition/cp.py   | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 30aadd1..0928bfe 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -172,10 +172,7 @@ class CMTF_ALS(CP_ALS):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-            if self.non_negativity_constraints is None:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
-
-            if self.non_negativity_constraints[mode]:
+            if self._is_constrained(self.non_negativity_constraints, mode):
                 new_fm = base.non_negative_rightsolve(lhs, rhs)
                 self.uncoupled_factor_matrices[cm_idx][...] = new_fm
             else:
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index b8dddab..d2ad322 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -342,13 +342,8 @@ class CP_ALS(BaseCP):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self.factor_matrices[0][...] = self.factor_matrices[0]*self.weights[np.newaxis]
         self.decomposition.reset_weights()
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False]*len(self.factor_matrices)
-        if self.orthonormality_constraints is None:
-            self.orthonormality_constraints = [False]*len(self.factor_matrices)
-        for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
-            fm = self.decomposition.factor_matrices[mode]
-            if orthogonality:
+        for mode, fm in enumerate(self.factor_matrices):
+            if self._is_constrained(self.orthonormality_constraints, mode):
                 q, r = np.linalg.qr(fm)
                 fm[...] = q*np.where(np.diag(r) < 0, -1, 1)
 
@@ -358,12 +353,17 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    @staticmethod
+    def _is_constrained(constraints, mode):
+        """``constraints`` is a list with one boolean per mode, or None if no mode is constrained."""
+        return constraints is not None and constraints[mode]
+
     def _use_normal_equations(self, mode):
         """The normal equations are only equivalent to the least squares problem
         if there are no constraints and no penalty."""
         return not (
-            self.non_negativity_constraints[mode]
-            or self.orthonormality_constraints[mode]
+            self._is_constrained(self.non_negativity_constraints, mode)
+            or self._is_constrained(self.orthonormality_constraints, mode)
             or (self.ridge_penalties is not None and self.ridge_penalties[mode])
         )
 
@@ -387,11 +387,11 @@ class CP_ALS(BaseCP):
 
     def _get_rightsolve(self, mode):
         rightsolve = base.rightsolve
-        if self.non_negativity_constraints[mode]:
+        if self._is_constrained(self.non_negativity_constraints, mode):
             rightsolve = base.non_negative_rightsolve
         
-        if self.orthonormality_constraints[mode]:
-            if self.non_negativity_constraints[mode]:
+        if self._is_constrained(self.orthonormality_constraints, mode):
+            if self._is_constrained(self.non_negativity_constraints, mode):
                 raise ValueError('Cannot perform nonnegative orthogonal solve')
 
             rightsolve = base.orthogonal_rightsolve
-- 
2.43.0


From a4889398379344a96c44a55b4efd8f0ac0a24d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 34/36] fix: PARAFAC2 fits with a print frequency of zero do
 not print, as for CP

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index f8de4ed..e19d94b 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -402,7 +402,7 @@ class Parafac2_ALS(BaseParafac2):
             self._update_parafac2_factors()
             self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
                 print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                       f'improvement is {self._rel_function_change:g}')
 
-- 
2.43.0


From f2ae2fba7f36bcabb44a55575930e5f8f95d092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:53 +0000
Subject: [PATCH 35/36] fix: the projection matrices of a CP initialised
 PARAFAC2 model do not share one array

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index e19d94b..1f11256 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -127,7 +127,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From 82fbb99b43f731748c28c634e02644380d9cae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:19 +0000
Subject: [PATCH 36/36] fix: decompositions of factor matrices that share
 memory were updated wrongly

---
 src/tenkit/decomposition/decompositions.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index d26bce4..03a410d 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -16,6 +16,17 @@ def _as_float(factor_matrix):
     return factor_matrix
 
 
+def _as_separate(factor_matrices):
+    # Factor matrices are updated in place, one at a time, so they cannot share memory.
+    separate = []
+    for factor_matrix in factor_matrices:
+        factor_matrix = _as_float(factor_matrix)
+        if any(np.may_share_memory(factor_matrix, other) for other in separate):
+            factor_matrix = factor_matrix.copy()
+        separate.append(factor_matrix)
+    return separate
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -123,7 +134,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = [_as_float(factor_matrix) for factor_matrix in factor_matrices]
+        self.factor_matrices = _as_separate(factor_matrices)
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -603,10 +614,8 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = _as_float(A)
-        self._blueprint_B = _as_float(blueprint_B)
-        self._C = _as_float(C)
-        self._projection_matrices = tuple(_as_float(projection_matrix) for projection_matrix in projection_matrices)
+        self._A, self._blueprint_B, self._C, *projection_matrices = _as_separate([A, blueprint_B, C, *projection_matrices])
+        self._projection_matrices = tuple(projection_matrices)
         self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
-- 
2.43.0

