From 1fa3eb084d446d3028f93e8962506092c724993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 01/37] fix: BaseTransformer.fit passes the row itself to
 fit_partial

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From fc820d6ea0d2f5cbac917bdf73bf61834439b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 02/37] fix: WindowedMetric keeps the metric keyword arguments
 for every window

---
 pysad/evaluation/windowed_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..1b86a01 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -22,7 +22,8 @@ class WindowedMetric(BaseMetric):
         self.window_size = window_size
         self.metric_cls = metric_cls
 
-        self.metric = self._init_metric(**kwargs)
+        self.metric_kwargs = kwargs
+        self.metric = self._init_metric(**self.metric_kwargs)
 
         self.score_meter = AverageMeter()
         self.step = 0
@@ -51,7 +52,7 @@ class WindowedMetric(BaseMetric):
             self.num_windows += 1
             score = self.metric.get()
             self.score_meter.update(score)
-            self.metric = self._init_metric()
+            self.metric = self._init_metric(**self.metric_kwargs)
 
         return self
 
-- 
2.43.0


From 30637d36a5b16b520a4d096429644ed028afb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 03/37] fix: RunningStatistic passes keyword arguments to the
 wrapped statistic

---
 pysad/statistics/running_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..cd8c5eb 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,9 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
+        super().__init__()
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From 2f1d7ec2b05f131a0484180a5b7637a6bd175ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 04/37] fix: GaussianTailProbabilityCalibrator uses all scores
 when not running

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From 0220c264b4bfffeaca34c119ccb252e5b3ef85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 05/37] fix: RobustRandomCutForest forgets the oldest point
 when a tree is full

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..76d4800 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From ee4a6ec13910e0626ef307b52eb1939ad939a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 06/37] fix: StreamhashProjector keeps a vector for a single
 component

---
 pysad/transform/projection/streamhash_projector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/projection/streamhash_projector.py b/pysad/transform/projection/streamhash_projector.py
index 863464d..4ac2df8 100644
--- a/pysad/transform/projection/streamhash_projector.py
+++ b/pysad/transform/projection/streamhash_projector.py
@@ -47,7 +47,7 @@ class StreamhashProjector(BaseTransformer):
                        for f in feature_names]
                       for k in self.keys])
 
-        Y = np.dot(X, R.T).squeeze()
+        Y = np.dot(X, R.T).reshape(-1)
 
         return Y
 
-- 
2.43.0


From b7ac9e5e8aa18e3edfa9830e3de564977df6af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 07/37] fix: VarianceMeter never reports a negative variance

---
 pysad/statistics/variance_meter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..e951f87 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -1,4 +1,5 @@
 from pysad.core.base_statistic import UnivariateStatistic
+import numpy as np
 from pysad.statistics.count_meter import CountMeter
 from pysad.statistics.sum_meter import SumMeter
 from pysad.statistics.sum_squares_meter import SumSquaresMeter
@@ -62,4 +63,4 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        return np.maximum(var, 0.0)
-- 
2.43.0


From 7b7e79000b68c7b77736f955aff43318f99638bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 08/37] fix: random projectors draw their projection matrix
 once per stream

---
 pysad/transform/projection/random_projector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..815ee45 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self._fitted_projector = None
 
     @property
     @abstractmethod
@@ -29,6 +30,9 @@ class BaseSKLearnProjector(BaseTransformer):
         Returns:
             object: self.
         """
+        if self._fitted_projector is None:
+            self._fitted_projector = self._projector().fit(X.reshape(1, -1))
+
         return self
 
     def transform_partial(self, X):
@@ -43,7 +47,7 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        return self.fit_partial(X)._fitted_projector.transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From 99b7b743daefb535fc387295049a640e7463ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:32 +0000
Subject: [PATCH 09/37] fix: HalfSpaceTrees accepts an array as initial window

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From 941a4125c88bba4af742c79d07a5546e57d60586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 10/37] fix: KitNET autoencoder scores 0 instead of NaN before
 it has seen data

---
 pysad/models/kitnet_model/dA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 09861d3..abd6c42 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -112,7 +112,7 @@ class dA:
         return z
 
     def execute(self, x): #returns MSE of the reconstruction of x
-        if self.n < self.params.gracePeriod:
+        if self.n == 0 or self.n < self.params.gracePeriod: #nothing learnt yet (the 0-1 normalization is undefined)
             return 0.0
         else:
             # 0-1 normalize
-- 
2.43.0


From d634452b73ac34e44689eed16862754dc965693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 11/37] fix: KitNET maps a single feature to a single
 autoencoder

---
 pysad/models/kitnet_model/corClust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/kitnet_model/corClust.py b/pysad/models/kitnet_model/corClust.py
index 2514553..cd8d16d 100644
--- a/pysad/models/kitnet_model/corClust.py
+++ b/pysad/models/kitnet_model/corClust.py
@@ -35,6 +35,8 @@ class corClust:
 
     # clusters the features together, having no more than maxClust features per cluster
     def cluster(self,maxClust):
+        if self.n == 1: #a single feature has no distances to link
+            return [[0]]
         D = self.corrDist()
         Z = linkage(D[np.triu_indices(self.n, 1)])  # create a linkage matrix based on the distance matrix
         if maxClust < 1:
-- 
2.43.0


From 6fec2390a356475603f897f00d94ecd79c5a1789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 12/37] fix: LODA chooses the zero components of its random
 cuts once per stream

---
 pysad/models/loda.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index 5c034bb..bd211e2 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -39,14 +39,16 @@ class LODA(BaseModel):
             self.n_zero_components = self.num_features - \
                 np.int32(n_nonzero_components)
 
+            for i in range(self.n_random_cuts):
+                rands = np.random.permutation(self.num_features)[
+                    :self.n_zero_components]
+                self.projections_[i, rands] = 0.
+
             self.to_init = False
 
         X = X.reshape(1, -1)
 
         for i in range(self.n_random_cuts):
-            rands = np.random.permutation(self.num_features)[
-                :self.n_zero_components]
-            self.projections_[i, rands] = 0.
             projected_data = self.projections_[i, :].dot(X.T)
             self.histograms_[i, :], self.limits_[i, :] = np.histogram(
                 projected_data, bins=self.n_bins, density=False)
-- 
2.43.0


From 5aee5e70538c9fef7bc6f497c7e7ac8f3fbd6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 13/37] fix: LODA looks up the histogram bin that contains the
 projection

---
 pysad/models/loda.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index bd211e2..92bb447 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -71,8 +71,8 @@ class LODA(BaseModel):
         pred_scores = np.zeros([X.shape[0], 1])
         for i in range(self.n_random_cuts):
             projected_data = self.projections_[i, :].dot(X.T)
-            inds = np.searchsorted(self.limits_[i, :self.n_bins - 1],
-                                   projected_data, side='left')
+            inds = np.searchsorted(self.limits_[i, 1:self.n_bins],
+                                   projected_data, side='right')
             pred_scores[:, 0] += -self.weights[i] * np.log(
                 self.histograms_[i, inds])
         pred_scores /= self.n_random_cuts
-- 
2.43.0


From d2cfcb3f5e6a0f7b370f0385f2d25661b9f5a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:47 +0000
Subject: [PATCH 14/37] fix: Data.get_iterator draws its order from the given
 seed

---
 pysad/utils/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..f4bf279 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -103,4 +103,5 @@ class Data:
 
         X, y = self.get_data(data_file)
 
-        return iterator.iter(X, y)
+        # Draws the order right after seeding (iter itself is lazy).
+        return iter(list(iterator.iter(X, y)))
-- 
2.43.0


From 20391943bb0a1e34dae28ac75bc6302038c3c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 15/37] fix: Data loads a text file with a single row

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index f4bf279..1f1f434 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -53,7 +53,7 @@ class Data:
         Returns:
             X (np.float64 array of shape (num_instances, num_features)): Feature vectors.
         """
-        X = np.loadtxt(path, delimiter=",")
+        X = np.loadtxt(path, delimiter=",", ndmin=2)
 
         return X
 
-- 
2.43.0


From 01be8c4fb48b91ff3cf79da9a9b033ad96abdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:36 +0000
Subject: [PATCH 16/37] fix: Inqmad scores with the current density matrix, not
 the one of its first score

predict was jit-compiled with self as a static argument, so the density
matrix of the first call was compiled in as a constant and every later
score ignored the instances fitted since.
---
 pysad/models/inqmad.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..4c420f2 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,7 +242,6 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-- 
2.43.0


From 8819f342bfd2a80a01a3a039f2b3ceff16a5d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:51 +0000
Subject: [PATCH 17/37] fix: Inqmad accumulates the states of all fitted
 instances

Training is called with alpha=1, so (1-alpha)*rho dropped every earlier
instance while predict divides by the number of all of them.
---
 pysad/models/inqmad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 4c420f2..2ab7638 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -197,7 +197,7 @@ class InqMeasurement():
       inputs = fm_x(batch)
       rho_res = train_pure_batch(inputs)
       rho_res = sum_batch(rho_res)
-      return jnp.add((alpha)*rho_res, (1-alpha)*rho) if rho is not None else rho_res
+      return jnp.add((alpha)*rho_res, rho) if rho is not None else rho_res
 
   @staticmethod
   def compute_training(values, alpha, perm, i, batch_size, fm_x, train_pure_batch, sum_batch, rho, compute_training_jit):
-- 
2.43.0


From 5a61ffe7b13600193b4d412f6a0b00d32684aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 18/37] fix: ExactStorm keeps copies of the instances in its
 window

---
 pysad/models/exact_storm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/exact_storm.py b/pysad/models/exact_storm.py
index 436a42e..aef6b61 100644
--- a/pysad/models/exact_storm.py
+++ b/pysad/models/exact_storm.py
@@ -28,6 +28,8 @@ class ExactStorm(BaseModel):
         Returns:
             object: self.
         """
+        # keep a copy, the caller may reuse the array
+        X = np.array(X)
         self.window.update(X)
 
         return self
-- 
2.43.0


From 17781bb0a6ec4f3cfb4b45216a7471d76ae7f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 19/37] fix: ReferenceWindowModel keeps copies of its instances
 and initial window

---
 pysad/models/integrations/reference_window_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..2305db3 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -42,6 +42,12 @@ class ReferenceWindowModel(PYODModel):
         self.reference_window_X = initial_window_X
         self.reference_window_y = initial_window_y
 
+        if initial_window_X is not None:
+            # keep copies, the caller may reuse the arrays
+            self.reference_window_X = np.array(initial_window_X)
+            if initial_window_y is not None:
+                self.reference_window_y = np.array(initial_window_y)
+
         if self.reference_window_X is not None:
             self._fit_model()
             self.initial_ref_window = True
@@ -58,6 +64,8 @@ class ReferenceWindowModel(PYODModel):
         Returns:
             object: self.
         """
+        # keep a copy, the caller may reuse the array
+        X = np.array(X)
         self.cur_window_X.append(X)
 
         if y is not None:
-- 
2.43.0


From b0035044d0c8879c43e5ce6bf231342e3c8b3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 20/37] fix: RobustRandomCutForest keeps copies of the points
 in its trees

---
 pysad/models/robust_random_cut_forest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 76d4800..7486b1e 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 
 
@@ -34,6 +35,9 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
+        # the trees keep the point, the caller may reuse the array
+        X = np.array(X)
+
         for tree in self.forest:
             if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
-- 
2.43.0


From dac992bb328b41dc57f0fda9cc18d7c50db925bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 21/37] fix: MAD and SAD keep copies of the instances, as
 floats

---
 pysad/models/median_absolute_deviation.py   | 4 ++++
 pysad/models/standard_absolute_deviation.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index 3ff3015..9084e25 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 from pysad.statistics.median_meter import MedianMeter
 
@@ -33,6 +34,9 @@ class MedianAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        # keep a copy, the caller may reuse the array
+        X = np.array(X, dtype=float)
+
         self.median_meter.update(X)
         deviation = abs(X - self.median_meter.get())
         self.mad_meter.update(deviation)
diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index bdfa4d8..fa34657 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 from pysad.statistics.average_meter import AverageMeter
 from pysad.statistics.median_meter import MedianMeter
@@ -40,6 +41,9 @@ class StandardAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        # keep a copy, the caller may reuse the array
+        X = np.array(X, dtype=float)
+
         self.variance_meter.update(X)
         self.sub_meter.update(X)
 
-- 
2.43.0


From 42928da9eb8a9909e7e936d9ca73b59871e609ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 22/37] fix: SeasonalTrendDecomposer keeps copies of the
 instances in its window

---
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index 494e139..39fa717 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -76,6 +76,8 @@ class SeasonalTrendDecomposer(BaseTransformer):
             self._init_seasonal_state(X)
 
         phase = self.num_seen % self.season_length
+        # keep a copy, the caller may reuse the array
+        X = np.array(X)
         self.window.append(X)
         trend = self._trend()
 
@@ -119,6 +121,8 @@ class SeasonalTrendDecomposer(BaseTransformer):
             self._init_seasonal_state(X)
 
         phase = self.num_seen % self.season_length
+        # keep a copy, the caller may reuse the array
+        X = np.array(X)
         self.window.append(X)
         trend = self._trend()
 
-- 
2.43.0


From b25ca41a15a93d374015659009659c5d2a24b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 23/37] fix: RelativeEntropy keeps copies of the instances in
 its window

---
 pysad/models/relative_entropy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..44de9fa 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -57,6 +57,8 @@ class RelativeEntropy(BaseModel):
         Returns:
             object: Returns the self.
         """
+        # keep a copy, the caller may reuse the array
+        X = np.array(X)
         self.util.append(X)
         if len(self.util) >= self.W:
 
-- 
2.43.0


From 4455921b741c4dc149bd39809a7f420889d98b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 24/37] fix: squares, medians and absolute values of small
 integer types do not overflow

---
 pysad/statistics/abs_statistic.py     | 2 ++
 pysad/statistics/median_meter.py      | 1 +
 pysad/statistics/sum_squares_meter.py | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/pysad/statistics/abs_statistic.py b/pysad/statistics/abs_statistic.py
index e2a9a75..81694b5 100644
--- a/pysad/statistics/abs_statistic.py
+++ b/pysad/statistics/abs_statistic.py
@@ -24,6 +24,7 @@ class AbsStatistic(UnivariateStatistic):
             object: self.
 
         """
+        num = 1.0 * num  # the least value of an integer type has no absolute value in it
         self.statistic.update(num)
 
         return self
@@ -38,6 +39,7 @@ class AbsStatistic(UnivariateStatistic):
             object: self.
 
         """
+        num = 1.0 * num
         self.statistic.remove(num)
 
         return self
diff --git a/pysad/statistics/median_meter.py b/pysad/statistics/median_meter.py
index bee26a4..31de917 100644
--- a/pysad/statistics/median_meter.py
+++ b/pysad/statistics/median_meter.py
@@ -23,6 +23,7 @@ class MedianMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
+        num = 1.0 * num  # sums overflow in small integer types
         heappush(self.lst, num)
         self.num_items += 1
 
diff --git a/pysad/statistics/sum_squares_meter.py b/pysad/statistics/sum_squares_meter.py
index cef2352..010d3dd 100644
--- a/pysad/statistics/sum_squares_meter.py
+++ b/pysad/statistics/sum_squares_meter.py
@@ -22,6 +22,7 @@ class SumSquaresMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
+        num = 1.0 * num  # squares overflow in small integer types
         self.sum_squares += num**2
         self.num_items += 1
 
@@ -36,6 +37,7 @@ class SumSquaresMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
+        num = 1.0 * num
         self.sum_squares -= num**2
         self.num_items -= 1
 
-- 
2.43.0


From 6f7d470e70a7523a5dd42a87a8b45c76de5c995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 25/37] fix: KNNCAD distances of unsigned integers do not
 overflow

---
 pysad/models/knn_cad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d13f8d6 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -46,6 +46,8 @@ class KNNCAD(BaseModel):
             self.sigma = np.diag(np.ones(self.dim))
             self.to_init = False
 
+        # differences overflow in small integer types
+        X = np.array(X, dtype=float)
         self.buf.append(X[0])
         self.record_count += 1
         if len(self.buf) < self.dim:
-- 
2.43.0


From 23072deac8d270fce56039493cc6530aa272ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 26/37] fix: ReferenceWindowModel with an unlabelled initial
 window ignores labels

---
 pysad/models/integrations/reference_window_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index 2305db3..65782a1 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -64,6 +64,9 @@ class ReferenceWindowModel(PYODModel):
         Returns:
             object: self.
         """
+        if self.initial_ref_window and self.reference_window_y is None:
+            y = None  # labels are of no use when the initial window has none
+
         # keep a copy, the caller may reuse the array
         X = np.array(X)
         self.cur_window_X.append(X)
-- 
2.43.0


From 1b38869405eac2fcef248c42710ec561da5556c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 27/37] fix: HalfSpaceTrees splits whole-numbered feature
 ranges without truncation

---
 pysad/models/half_space_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index 2aaf177..3fe8b48 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -28,6 +28,9 @@ class HalfSpaceTrees(BaseModel):
         self.num_trees = num_trees
         self.feature_maxes = feature_maxes
         self.feature_mins = feature_mins
+        # the split values between whole-numbered bounds are no whole numbers
+        self.feature_maxes = np.array(self.feature_maxes, dtype=np.float64)
+        self.feature_mins = np.array(self.feature_mins, dtype=np.float64)
 
         self.num_dimensions = len(self.feature_maxes)
 
-- 
2.43.0


From 82231918f5772c978dc16ccf0014e9f01df1cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:56 +0000
Subject: [PATCH 28/37] fix: OneFitModel keeps copies of the initial instances

---
 pysad/models/integrations/one_fit_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysad/models/integrations/one_fit_model.py b/pysad/models/integrations/one_fit_model.py
index c868a8d..4404cd4 100644
--- a/pysad/models/integrations/one_fit_model.py
+++ b/pysad/models/integrations/one_fit_model.py
@@ -1,3 +1,4 @@
+import numpy as np
 from .pyod_model import PYODModel
 
 
@@ -16,6 +17,10 @@ class OneFitModel(PYODModel):
 
         self.initial_y = initial_y
         self.initial_X = initial_X
+        # keep copies, the fitted model may refer to them and the caller may reuse the arrays
+        self.initial_X = np.array(self.initial_X)
+        if self.initial_y is not None:
+            self.initial_y = np.array(self.initial_y)
         self._fit_model()
 
     def fit_partial(self, X, y=None):
-- 
2.43.0


From 4c94e7af252f7d5d1690458068f81ddcb65f6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:56 +0000
Subject: [PATCH 29/37] fix: LocalOutlierProbability keeps a copy of the
 initial instances

---
 pysad/models/loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysad/models/loop.py b/pysad/models/loop.py
index 4e5b299..84f94c8 100644
--- a/pysad/models/loop.py
+++ b/pysad/models/loop.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 
 
@@ -14,6 +15,9 @@ class LocalOutlierProbability(BaseModel):
     def __init__(self, initial_X, num_neighbors=10, extent=3):
         from PyNomaly import loop
 
+        # keep a copy, the fitted model refers to it and the caller may reuse the array
+        initial_X = np.array(initial_X)
+
         self.model = loop.LocalOutlierProbability(
             initial_X, extent=extent, n_neighbors=num_neighbors).fit()
 
-- 
2.43.0


From 8e53f4c4e9de2786f6ad149738516b95f985672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 30/37] fix: InstanceStandardScaler maps an instance with equal
 features to zeros, not NaN

---
 pysad/transform/preprocessing/instance_standard_scaler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/transform/preprocessing/instance_standard_scaler.py b/pysad/transform/preprocessing/instance_standard_scaler.py
index ba63ce7..6fc1647 100644
--- a/pysad/transform/preprocessing/instance_standard_scaler.py
+++ b/pysad/transform/preprocessing/instance_standard_scaler.py
@@ -32,4 +32,7 @@ class InstanceStandardScaler(BaseTransformer):
         X_mean = X.mean()
         X_std = X.std()
 
+        if X_std == 0:
+            return X - X_mean  # all features are equal: zeros instead of 0 / 0
+
         return (X - X_mean) / X_std
-- 
2.43.0


From 84def5947c6a89be920fd71fcf25c20403bffb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 31/37] fix: InstanceUnitNormScaler leaves a zero instance as
 it is, not NaN

---
 pysad/transform/preprocessing/instance_unit_norm_scaler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/transform/preprocessing/instance_unit_norm_scaler.py b/pysad/transform/preprocessing/instance_unit_norm_scaler.py
index 0126c5f..b99909b 100644
--- a/pysad/transform/preprocessing/instance_unit_norm_scaler.py
+++ b/pysad/transform/preprocessing/instance_unit_norm_scaler.py
@@ -35,4 +35,7 @@ class InstanceUnitNormScaler(BaseTransformer):
         """
         X_norm = np.linalg.norm(X, ord=self.pow)
 
+        if X_norm == 0:
+            return X / 1.0  # a zero instance stays as it is instead of 0 / 0
+
         return X / X_norm
-- 
2.43.0


From c0be86f919ccdf3791578a6f96cd74f3b011493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 32/37] fix: z-score postprocessors report the distance, not
 NaN, while all scores are equal

---
 pysad/transform/postprocessing/postprocessors.py         | 4 ++++
 pysad/transform/postprocessing/running_postprocessors.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pysad/transform/postprocessing/postprocessors.py b/pysad/transform/postprocessing/postprocessors.py
index 14f410b..0840e70 100644
--- a/pysad/transform/postprocessing/postprocessors.py
+++ b/pysad/transform/postprocessing/postprocessors.py
@@ -134,6 +134,10 @@ class ZScorePostprocessor(BasePostprocessor):
         Returns:
             float: Transformed score.
         """
+        if self.variance_meter.get() == 0:
+            # all scores are equal: only their distance is left, as for a deviation of 1
+            return score - self.average_meter.get()
+
         zscore = (score - self.average_meter.get()) / \
             np.sqrt(self.variance_meter.get())
 
diff --git a/pysad/transform/postprocessing/running_postprocessors.py b/pysad/transform/postprocessing/running_postprocessors.py
index 29a2a8f..2c0a1bf 100644
--- a/pysad/transform/postprocessing/running_postprocessors.py
+++ b/pysad/transform/postprocessing/running_postprocessors.py
@@ -156,6 +156,10 @@ class RunningZScorePostprocessor(BasePostprocessor):
         Returns:
             float: Transformed score.
         """
+        if self.variance_meter.get() == 0:
+            # all scores are equal: only their distance is left, as for a deviation of 1
+            return score - self.average_meter.get()
+
         zscore = (score - self.average_meter.get()) / \
             np.sqrt(self.variance_meter.get())
 
-- 
2.43.0


From f52abde76c332608b57366f0b6fd693a09ee31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 33/37] fix: KitNET autoencoders keep tied weights in copies of
 the model

---
 pysad/models/kitnet_model/dA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index abd6c42..9d6feb1 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -75,6 +75,7 @@ class dA:
 
     # Decode
     def get_reconstructed_input(self, hidden):
+        self.W_prime = self.W.T  # tied weights, also in a copy of the model
         return sigmoid(numpy.dot(hidden, self.W_prime) + self.vbias)
 
     def train(self, x):
-- 
2.43.0


From c2c343755808180aca39ee9a33caefbe51626b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 34/37] fix: SeasonalTrendDecomposer accepts numpy integers as
 window length

---
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index 39fa717..63f9193 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -32,6 +32,8 @@ class SeasonalTrendDecomposer(BaseTransformer):
         elif trend_window < 1:
             raise ValueError("trend_window must be greater than 0.")
 
+        trend_window = int(trend_window)  # deque takes no numpy integers
+
         self.season_length = season_length
         self.trend_window = trend_window
         self.window = deque(maxlen=trend_window)
-- 
2.43.0


From 6a1e33945e9134cd2fc9c8c175c17a0359d8859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 35/37] fix: z-score postprocessors recognise equal scores
 despite rounding

---
 pysad/transform/postprocessing/postprocessors.py         | 9 ++++++++-
 pysad/transform/postprocessing/running_postprocessors.py | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pysad/transform/postprocessing/postprocessors.py b/pysad/transform/postprocessing/postprocessors.py
index 0840e70..c479cdc 100644
--- a/pysad/transform/postprocessing/postprocessors.py
+++ b/pysad/transform/postprocessing/postprocessors.py
@@ -110,6 +110,8 @@ class ZScorePostprocessor(BasePostprocessor):
     def __init__(self):
         self.variance_meter = VarianceMeter()
         self.average_meter = AverageMeter()
+        self.first_score = None
+        self.all_equal = True
 
     def fit_partial(self, score):
         """Fits the postprocessor to the (next) timestep's score.
@@ -123,6 +125,11 @@ class ZScorePostprocessor(BasePostprocessor):
         self.variance_meter.update(score)
         self.average_meter.update(score)
 
+        if self.first_score is None:
+            self.first_score = np.array(score)
+        elif score != self.first_score:
+            self.all_equal = False
+
         return self
 
     def transform_partial(self, score):
@@ -134,7 +141,7 @@ class ZScorePostprocessor(BasePostprocessor):
         Returns:
             float: Transformed score.
         """
-        if self.variance_meter.get() == 0:
+        if self.variance_meter.get() == 0 or self.all_equal:  # rounding may leave some variance
             # all scores are equal: only their distance is left, as for a deviation of 1
             return score - self.average_meter.get()
 
diff --git a/pysad/transform/postprocessing/running_postprocessors.py b/pysad/transform/postprocessing/running_postprocessors.py
index 2c0a1bf..b3fe74f 100644
--- a/pysad/transform/postprocessing/running_postprocessors.py
+++ b/pysad/transform/postprocessing/running_postprocessors.py
@@ -156,7 +156,8 @@ class RunningZScorePostprocessor(BasePostprocessor):
         Returns:
             float: Transformed score.
         """
-        if self.variance_meter.get() == 0:
+        window = self.variance_meter.window
+        if self.variance_meter.get() == 0 or min(window) == max(window):  # rounding may leave some variance
             # all scores are equal: only their distance is left, as for a deviation of 1
             return score - self.average_meter.get()
 
-- 
2.43.0


From a2cf89b220cadf8bf5b2beed2f6f6b0c0da70f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 36/37] fix: InstanceStandardScaler recognises equal features
 despite rounding

---
 pysad/transform/preprocessing/instance_standard_scaler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysad/transform/preprocessing/instance_standard_scaler.py b/pysad/transform/preprocessing/instance_standard_scaler.py
index 6fc1647..f2a2bcb 100644
--- a/pysad/transform/preprocessing/instance_standard_scaler.py
+++ b/pysad/transform/preprocessing/instance_standard_scaler.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_transformer import BaseTransformer
 
 
@@ -32,7 +33,7 @@ class InstanceStandardScaler(BaseTransformer):
         X_mean = X.mean()
         X_std = X.std()
 
-        if X_std == 0:
-            return X - X_mean  # all features are equal: zeros instead of 0 / 0
+        if X_std == 0 or X.max() == X.min():  # rounding may leave some deviation
+            return np.zeros(X.shape)  # all features are equal: zeros instead of 0 / 0
 
         return (X - X_mean) / X_std
-- 
2.43.0


From 077750345bab9dea8ac345ea1a41956d317d631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 37/37] fix: Gaussian calibration takes deviation 1 for equal
 scores despite rounding

---
 .../probability_calibration/gaussian_tail.py    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index fb9e898..c2b0e4c 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -25,6 +25,11 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.avg_meter = AverageMeter()
             self.var_meter = VarianceMeter()
 
+        # the length of the latest run of equal scores
+        self.last_score = None
+        self.num_equal = 0
+        self.num_scores = 0
+
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
 
@@ -36,6 +41,13 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
         self.avg_meter.update(score)
         self.var_meter.update(score)
 
+        self.num_scores += 1
+        if self.last_score is not None and score == self.last_score:
+            self.num_equal += 1
+        else:
+            self.last_score = np.array(score)
+            self.num_equal = 1
+
         return self
 
     def transform_partial(self, score):
@@ -49,7 +61,10 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
         """
         mean = self.avg_meter.get()
         var = self.var_meter.get()
-        if var > 0:
+        num_used = min(self.num_scores, self.window_size) if self.running_statistics else self.num_scores
+        if self.num_equal >= num_used:
+            std = 1.0  # all scores are equal, rounding may leave some variance
+        elif var > 0:
             std = np.sqrt(var)
         else:
             std = 1.0
-- 
2.43.0

