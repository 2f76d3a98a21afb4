From e5ddc2e156be59e585969a8a1ad2fbbde2295b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 01/29] fix: BaseTransformer.fit passes instances, not
 (instance, None) tuples, to fit_partial

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From ee4025521d2d120b2954ad89ef21c9c5d65367f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 02/29] fix: random projectors draw their projection matrix
 once per stream, not per instance

---
 pysad/transform/projection/random_projector.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..0bfe9c7 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self._fitted_projector = None
 
     @property
     @abstractmethod
@@ -29,8 +30,16 @@ class BaseSKLearnProjector(BaseTransformer):
         Returns:
             object: self.
         """
+        self._get_fitted_projector(X)
+
         return self
 
+    def _get_fitted_projector(self, X):
+        if self._fitted_projector is None:
+            self._fitted_projector = self._projector().fit(X.reshape(1, -1))
+
+        return self._fitted_projector
+
     def transform_partial(self, X):
         """Projects particular (next) timestep's vector to (possibly) lower dimensional space.
 
@@ -43,7 +52,7 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        return self._get_fitted_projector(X).transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From b76633a1ecf68d45648add01b7b50c997fe223d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 03/29] fix: GaussianTailProbabilityCalibrator without running
 statistics uses the variance of all scores

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From de3f65ba8b7fc31c19de8b378283061c9010ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 04/29] fix: VarianceMeter never returns a negative variance

---
 pysad/statistics/variance_meter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..eb556f4 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_statistic import UnivariateStatistic
 from pysad.statistics.count_meter import CountMeter
 from pysad.statistics.sum_meter import SumMeter
@@ -62,4 +63,4 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        return np.maximum(var, 0.0)  # rounding can leave a tiny negative value
-- 
2.43.0


From 247e51cb3437971982cb036f5c8c900c0b06314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 05/29] fix: RunningStatistic passes its keyword arguments to
 the wrapped statistic

---
 pysad/statistics/running_statistic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..e953307 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,8 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From e7048dab130e28dc5b8d993f4ee880dab3007198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 06/29] fix: WindowedMetric builds every window's metric with
 the given keyword arguments

---
 pysad/evaluation/windowed_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..c7be4bd 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -22,7 +22,8 @@ class WindowedMetric(BaseMetric):
         self.window_size = window_size
         self.metric_cls = metric_cls
 
-        self.metric = self._init_metric(**kwargs)
+        self.kwargs = kwargs
+        self.metric = self._init_metric(**self.kwargs)
 
         self.score_meter = AverageMeter()
         self.step = 0
@@ -51,7 +52,7 @@ class WindowedMetric(BaseMetric):
             self.num_windows += 1
             score = self.metric.get()
             self.score_meter.update(score)
-            self.metric = self._init_metric()
+            self.metric = self._init_metric(**self.kwargs)
 
         return self
 
-- 
2.43.0


From 0bff3c49e3b29cae0d99880fd022da360e711a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 07/29] fix: a window on which the metric is undefined no
 longer corrupts WindowedMetric

---
 pysad/evaluation/windowed_metric.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index c7be4bd..59e83fb 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -49,10 +49,11 @@ class WindowedMetric(BaseMetric):
         self.metric.update(y_true, y_pred)
 
         if self.step % self.window_size == 0:
-            self.num_windows += 1
-            score = self.metric.get()
-            self.score_meter.update(score)
+            metric = self.metric
             self.metric = self._init_metric(**self.kwargs)
+            score = metric.get()  # raises if the metric is undefined on this window
+            self.score_meter.update(score)
+            self.num_windows += 1
 
         return self
 
-- 
2.43.0


From 4b1d887f86253095557e475f5a0134273bffa1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 08/29] fix: RobustRandomCutForest keeps the last tree_size
 instances (the first one was never forgotten)

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..76d4800 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From da316bd54e680ef2e57c15bc2d4720fb514d98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 09/29] fix: HalfSpaceTrees accepts an array as
 initial_window_X

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From 6a5b12bd3b7eb04b4383a5242d25576418ac35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 10/29] fix: streamers draw the shuffled order when the
 iterator is created, not at its first use

---
 pysad/utils/array_streamer.py  | 11 +++++------
 pysad/utils/pandas_streamer.py | 10 ++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/pysad/utils/array_streamer.py b/pysad/utils/array_streamer.py
index 58a502e..05f5bab 100644
--- a/pysad/utils/array_streamer.py
+++ b/pysad/utils/array_streamer.py
@@ -24,9 +24,8 @@ class ArrayStreamer(BaseStreamer):
             np.random.shuffle(indices)
 
         if y is None:
-            for i in indices:
-                yield X[i]
-        else:
-            assert len(X) == len(y)
-            for i in indices:
-                yield X[i], y[i]
+            return (X[i] for i in indices)
+
+        assert len(X) == len(y)
+
+        return ((X[i], y[i]) for i in indices)
diff --git a/pysad/utils/pandas_streamer.py b/pysad/utils/pandas_streamer.py
index ecd7a66..ecffe24 100644
--- a/pysad/utils/pandas_streamer.py
+++ b/pysad/utils/pandas_streamer.py
@@ -22,10 +22,8 @@ class PandasStreamer(BaseStreamer):
             y: Pandas dataframe for labels.
         """
         if y is None:
-            for x in self.array_iterator.iter(X.to_numpy()):
-                yield x
-        else:
-            assert len(X) == len(y)
+            return self.array_iterator.iter(X.to_numpy())
 
-            for x, yr in self.array_iterator.iter(X.to_numpy(), y.to_numpy()):
-                yield x, yr
+        assert len(X) == len(y)
+
+        return self.array_iterator.iter(X.to_numpy(), y.to_numpy())
-- 
2.43.0


From 4d3e2fc206993df7173815835e758d7e50ae3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 11/29] fix: Data loads text files with a single row

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..c8ddb2e 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -53,7 +53,7 @@ class Data:
         Returns:
             X (np.float64 array of shape (num_instances, num_features)): Feature vectors.
         """
-        X = np.loadtxt(path, delimiter=",")
+        X = np.loadtxt(path, delimiter=",", ndmin=2)
 
         return X
 
-- 
2.43.0


From 14aae6d18111a9964fce326f3a1cf93e925a1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 12/29] fix: Inqmad scores use the current density matrix
 instead of the one at the first score

---
 pysad/models/inqmad.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..b82984a 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,11 +242,15 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
+    return self._predict(values, self.rho_res, self.num_samples)
+
+  # The state is an argument: jit would freeze attributes of the static self at the first call.
+  @partial(jit, static_argnums=(0,))
+  def _predict(self, values, rho_res, num_samples):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-    rho_res = self.rho_res / self.num_samples
+    rho_res = rho_res / num_samples
     num_train = values.shape[0]
     perm = jnp.arange(num_train)
     for i in range(num_batches):
-- 
2.43.0


From 1723f2afcf34cbe054e7e832e0f6ccbe38c7b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 13/29] fix: KitNet scores 0 instead of NaN while its
 autoencoders are untrained

---
 pysad/models/kitnet_model/dA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 09861d3..5ada6e2 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -112,7 +112,7 @@ class dA:
         return z
 
     def execute(self, x): #returns MSE of the reconstruction of x
-        if self.n < self.params.gracePeriod:
+        if self.n == 0 or self.n < self.params.gracePeriod:
             return 0.0
         else:
             # 0-1 normalize
-- 
2.43.0


From 9ba68ac58ed4c02a8a68e368afdf0b972d764dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 14/29] fix: KitNet accepts univariate streams

---
 pysad/models/kitnet_model/corClust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/kitnet_model/corClust.py b/pysad/models/kitnet_model/corClust.py
index 2514553..8f04fb4 100644
--- a/pysad/models/kitnet_model/corClust.py
+++ b/pysad/models/kitnet_model/corClust.py
@@ -35,6 +35,8 @@ class corClust:
 
     # clusters the features together, having no more than maxClust features per cluster
     def cluster(self,maxClust):
+        if self.n == 1: #a single feature has nothing to be clustered with
+            return [[0]]
         D = self.corrDist()
         Z = linkage(D[np.triu_indices(self.n, 1)])  # create a linkage matrix based on the distance matrix
         if maxClust < 1:
-- 
2.43.0


From db739c456bb90278c0fc0d426bc2f2a375eb9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 15/29] fix: ReferenceWindowModel keeps scoring with the last
 fitted detector when a refit fails

---
 pysad/models/integrations/reference_window_model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..19dff78 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -88,12 +88,17 @@ class ReferenceWindowModel(PYODModel):
         return self
 
     def _fit_model(self):
+        previous_model = self.model
         self.reset_model()
 
-        if self.reference_window_y is None:
-            self.model.fit(self.reference_window_X)
-        else:
-            self.model.fit(self.reference_window_X, self.reference_window_y)
+        try:
+            if self.reference_window_y is None:
+                self.model.fit(self.reference_window_X)
+            else:
+                self.model.fit(self.reference_window_X, self.reference_window_y)
+        except BaseException:
+            self.model = previous_model
+            raise
 
     def score_partial(self, X):
         """Scores the anomalousness of the next instance.
-- 
2.43.0


From 2944a02eef8c456ff21246814fa3d52d7ad2ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 16/29] fix: components keep private copies of the instances
 they retain

---
 pysad/models/exact_storm.py                                | 2 +-
 pysad/models/integrations/reference_window_model.py        | 6 +++---
 pysad/models/median_absolute_deviation.py                  | 2 ++
 pysad/models/relative_entropy.py                           | 2 +-
 pysad/models/robust_random_cut_forest.py                   | 2 ++
 pysad/models/standard_absolute_deviation.py                | 2 ++
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 2 +-
 7 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pysad/models/exact_storm.py b/pysad/models/exact_storm.py
index 436a42e..f6c9b00 100644
--- a/pysad/models/exact_storm.py
+++ b/pysad/models/exact_storm.py
@@ -28,7 +28,7 @@ class ExactStorm(BaseModel):
         Returns:
             object: self.
         """
-        self.window.update(X)
+        self.window.update(np.array(X))
 
         return self
 
diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index 19dff78..44dbdb3 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -39,8 +39,8 @@ class ReferenceWindowModel(PYODModel):
         self.cur_window_X = []
         self.cur_window_y = []
 
-        self.reference_window_X = initial_window_X
-        self.reference_window_y = initial_window_y
+        self.reference_window_X = None if initial_window_X is None else np.array(initial_window_X)
+        self.reference_window_y = None if initial_window_y is None else np.array(initial_window_y)
 
         if self.reference_window_X is not None:
             self._fit_model()
@@ -58,7 +58,7 @@ class ReferenceWindowModel(PYODModel):
         Returns:
             object: self.
         """
-        self.cur_window_X.append(X)
+        self.cur_window_X.append(np.array(X))
 
         if y is not None:
             self.cur_window_y.append(y)
diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index 3ff3015..5a14370 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 from pysad.statistics.median_meter import MedianMeter
 
@@ -33,6 +34,7 @@ class MedianAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        X = np.array(X)
         self.median_meter.update(X)
         deviation = abs(X - self.median_meter.get())
         self.mad_meter.update(deviation)
diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..f4792f4 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -57,7 +57,7 @@ class RelativeEntropy(BaseModel):
         Returns:
             object: Returns the self.
         """
-        self.util.append(X)
+        self.util.append(np.array(X))
         if len(self.util) >= self.W:
 
             # Extracting current window
diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 76d4800..9c30f05 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 
 
@@ -34,6 +35,7 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
+        X = np.array(X)
         for tree in self.forest:
             if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index bdfa4d8..d74ee08 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 from pysad.statistics.average_meter import AverageMeter
 from pysad.statistics.median_meter import MedianMeter
@@ -40,6 +41,7 @@ class StandardAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        X = np.array(X)
         self.variance_meter.update(X)
         self.sub_meter.update(X)
 
diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index 494e139..f283a75 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -43,7 +43,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
         if isinstance(X, tuple):
             X = X[0]
 
-        return np.asarray(X)
+        return np.array(X)
 
     def _init_seasonal_state(self, X):
         self.seasonal_sums = np.zeros((self.season_length, X.shape[0]))
-- 
2.43.0


From 7a948b6c39bb4be57c76cca63b395df043c4402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 17/29] fix: RelativeEntropy and KNNCAD keep only the part of
 the stream they use

---
 pysad/models/knn_cad.py          | 1 +
 pysad/models/relative_entropy.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d3c39b8 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -47,6 +47,7 @@ class KNNCAD(BaseModel):
             self.to_init = False
 
         self.buf.append(X[0])
+        self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
             return self
diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index f4792f4..6863bb0 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -58,6 +58,7 @@ class RelativeEntropy(BaseModel):
             object: Returns the self.
         """
         self.util.append(np.array(X))
+        self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
             # Extracting current window
-- 
2.43.0


From db0b37f6f67d4a27664a4875f4177fc96b2ab8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 18/29] fix: RobustRandomCutForest can be pickled and copied

---
 pysad/models/robust_random_cut_forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9c30f05..fd688b9 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -1,4 +1,5 @@
 import numpy as np
+from sklearn.utils import check_random_state
 from pysad.core.base_model import BaseModel
 
 
@@ -20,7 +21,7 @@ class RobustRandomCutForest(BaseModel):
 
         self.forest = []
         for _ in range(self.num_trees):
-            tree = rrcf.RCTree()
+            tree = rrcf.RCTree(random_state=check_random_state(None))  # a module as rng could not be pickled
             self.forest.append(tree)
 
         self.index = 0
-- 
2.43.0


From ea391bfc7d7aa95ac7c6a15e1b809dce1175d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 19/29] fix: Inqmad can be pickled

---
 pysad/models/inqmad.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index b82984a..3ba486c 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -114,8 +114,18 @@ class QFeatureMap_rff():
       self.dim = dim
       self.gamma = gamma
       self.random_state = random_state
-      self.vmap_compute = jax.jit(jax.vmap(self.compute, in_axes=(0, None, None, None), out_axes=0))
+      self._compile()
 
+  def _compile(self):
+    self.vmap_compute = jax.jit(jax.vmap(self.compute, in_axes=(0, None, None, None), out_axes=0))
+
+  def __getstate__(self):
+    # compiled functions cannot be pickled; they are compiled again when restored
+    return {k: v for k, v in self.__dict__.items() if k != "vmap_compute"}
+
+  def __setstate__(self, state):
+    self.__dict__.update(state)
+    self._compile()
   
   def build(self):
     rbf_sampler = RBFSampler(
@@ -173,10 +183,21 @@ class InqMeasurement():
     self.fm_x = QFeatureMap_rff( input_dim=input_shape, dim = dim_x, gamma = gamma, random_state = random_state)
     self.fm_x.build()
     self.num_samples = 0 
+    self._compile()
+    self.batch_size = batch_size
+
+  def _compile(self):
     self.train_pure_batch = jax.jit(jax.vmap(self.train_pure, in_axes=(0)))
     self.collapse_batch = jax.jit(jax.vmap(self.collapse, in_axes=(0, None)))
     self.sum_batch = jax.jit(self.sum)
-    self.batch_size = batch_size
+
+  def __getstate__(self):
+    compiled = ("train_pure_batch", "collapse_batch", "sum_batch")
+    return {k: v for k, v in self.__dict__.items() if k not in compiled}
+
+  def __setstate__(self, state):
+    self.__dict__.update(state)
+    self._compile()
 
   @staticmethod
   def train_pure(inputs):
-- 
2.43.0


From 4398702bead65d5416e6fff87bf1c7b7a9119e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:09 +0000
Subject: [PATCH 20/29] fix: a pickled or copied KitNet keeps its tied weights

---
 pysad/models/kitnet_model/dA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 5ada6e2..baf6474 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -59,8 +59,10 @@ class dA:
 
         self.hbias = numpy.zeros(self.params.n_hidden)  # initialize h bias 0
         self.vbias = numpy.zeros(self.params.n_visible)  # initialize v bias 0
-        self.W_prime = self.W.T
 
+    @property
+    def W_prime(self):  # tied weights; a stored view of W would stop following it in a restored copy
+        return self.W.T
 
     def get_corrupted_input(self, input, corruption_level):
         assert corruption_level < 1
-- 
2.43.0


From 5133babd688cecb99aa4bd1123308acf47121d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:08 +0000
Subject: [PATCH 21/29] fix: ReferenceWindowModel accepts labelled instances
 after an unlabelled initial window

---
 pysad/models/integrations/reference_window_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index 44dbdb3..477daef 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -75,7 +75,7 @@ class ReferenceWindowModel(PYODModel):
             self.reference_window_X = self.reference_window_X[max(
                 0, len(self.reference_window_X) - self.window_size):]
 
-            if y is not None:
+            if y is not None and self.reference_window_y is not None:
                 self.reference_window_y = np.concatenate(
                     [self.reference_window_y, self.cur_window_y], axis=0)
                 self.reference_window_y = self.reference_window_y[max(
-- 
2.43.0


From 5ce4c0e804a64645fe2f5e42df0def89c4af3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 22/29] fix: AverageScoreEnsembler keeps its own copy of the
 estimator weights

---
 pysad/transform/ensemble/ensemblers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/ensemble/ensemblers.py b/pysad/transform/ensemble/ensemblers.py
index 8825ea7..c317e33 100644
--- a/pysad/transform/ensemble/ensemblers.py
+++ b/pysad/transform/ensemble/ensemblers.py
@@ -1,4 +1,6 @@
 from abc import abstractmethod
+
+import numpy as np
 from pyod.models.combination import average, maximization, median, moa, aom
 from pysad.core.base_postprocessor import BasePostprocessor
 
@@ -57,7 +59,7 @@ class AverageScoreEnsembler(PYODScoreEnsembler):
 
     def __init__(self, estimator_weights=None):
 
-        self.estimator_weights = estimator_weights
+        self.estimator_weights = None if estimator_weights is None else np.array(estimator_weights)
 
     def _combine(self, scores):
         """Wrapping for PyOD the ensembler.
-- 
2.43.0


From ecd9690b691278cca7abe8e1d99ecf840df26fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 23/29] fix: LocalOutlierProbability keeps its own copy of the
 initial data

---
 pysad/models/loop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysad/models/loop.py b/pysad/models/loop.py
index 4e5b299..3cfb065 100644
--- a/pysad/models/loop.py
+++ b/pysad/models/loop.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from pysad.core.base_model import BaseModel
 
 
@@ -15,7 +17,7 @@ class LocalOutlierProbability(BaseModel):
         from PyNomaly import loop
 
         self.model = loop.LocalOutlierProbability(
-            initial_X, extent=extent, n_neighbors=num_neighbors).fit()
+            np.array(initial_X), extent=extent, n_neighbors=num_neighbors).fit()
 
     def fit_partial(self, X, y=None):
         """Fits the model to next instance.
-- 
2.43.0


From 932086b234324c78294fa2c6629fa6f6fb7d5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:25 +0000
Subject: [PATCH 24/29] fix: StreamhashProjector returns a vector also for a
 single component

---
 pysad/transform/projection/streamhash_projector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/projection/streamhash_projector.py b/pysad/transform/projection/streamhash_projector.py
index 863464d..4ac2df8 100644
--- a/pysad/transform/projection/streamhash_projector.py
+++ b/pysad/transform/projection/streamhash_projector.py
@@ -47,7 +47,7 @@ class StreamhashProjector(BaseTransformer):
                        for f in feature_names]
                       for k in self.keys])
 
-        Y = np.dot(X, R.T).squeeze()
+        Y = np.dot(X, R.T).reshape(-1)
 
         return Y
 
-- 
2.43.0


From a9ff3d11d63e30fcd35946062eef44be4bde7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 25/29] fix: LocalOutlierProbability scores memory-mapped and
 other ndarray subclass instances

---
 pysad/models/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/loop.py b/pysad/models/loop.py
index 3cfb065..fc32a8c 100644
--- a/pysad/models/loop.py
+++ b/pysad/models/loop.py
@@ -40,4 +40,4 @@ class LocalOutlierProbability(BaseModel):
         Returns:
             float: The anomalousness score of the input instance.
         """
-        return self.model.stream(X)
+        return self.model.stream(np.asarray(X))
-- 
2.43.0


From 2b43de460692006de5cc7f5a360205dd878004b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 26/29] fix: HalfSpaceTrees splits whole-number bounds without
 truncating the midpoints

---
 pysad/models/half_space_trees.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index 2aaf177..dd8e83c 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -33,10 +33,8 @@ class HalfSpaceTrees(BaseModel):
 
         self.roots = [
             self._build_single_hs_tree(
-                copy.deepcopy(
-                    self.feature_mins),
-                copy.deepcopy(
-                    self.feature_maxes),
+                np.array(self.feature_mins, dtype=np.float64),
+                np.array(self.feature_maxes, dtype=np.float64),
                 0) for _ in range(
                 self.num_trees)]
 
-- 
2.43.0


From d4362d79ad966642303434cd8cc7f847d04d673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 27/29] fix: RobustRandomCutForest stores points as float64, so
 integer instances do not truncate bounding boxes

---
 pysad/models/robust_random_cut_forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index fd688b9..0a8963d 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -36,7 +36,7 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
-        X = np.array(X)
+        X = np.array(X, dtype=np.float64)
         for tree in self.forest:
             if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
@@ -56,6 +56,7 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             float: The anomalousness score of the input instance.
         """
+        X = np.asarray(X, dtype=np.float64)
 
         score = 0.0
         for tree in self.forest:
-- 
2.43.0


From 6b2a25924e9ce79b76ffc1b3c1a1fe60097e295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 28/29] fix: RobustRandomCutForest takes the scored instance
 out of its trees again when scoring it fails or is interrupted

---
 pysad/models/robust_random_cut_forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 0a8963d..4052ed4 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -63,8 +63,10 @@ class RobustRandomCutForest(BaseModel):
             leaf = tree.find_duplicate(X)
             if leaf is None:
                 tree.insert_point(X, index="test_point")
-                score += 1.0 * tree.codisp("test_point") / self.num_trees
-                tree.forget_point("test_point")
+                try:
+                    score += 1.0 * tree.codisp("test_point") / self.num_trees
+                finally:
+                    tree.forget_point("test_point")
             else:
                 score += 1.0 * tree.codisp(leaf) / self.num_trees
 
-- 
2.43.0


From c8e49c815f2618369114fd637ebbae4413627251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 29/29] fix: SeasonalTrendDecomposer sets up its seasonal state
 when it learns, not in a read that can be interrupted half-way

---
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index f283a75..9627456 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -56,7 +56,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
         return np.mean(np.asarray(self.window), axis=0)
 
     def _seasonal(self, phase):
-        if self.seasonal_counts[phase] == 0:
+        if self.seasonal_counts is None or self.seasonal_counts[phase] == 0:
             return 0.0
 
         return self.seasonal_sums[phase] / self.seasonal_counts[phase]
@@ -98,9 +98,6 @@ class SeasonalTrendDecomposer(BaseTransformer):
         """
         X = self._as_array(X)
 
-        if self.seasonal_sums is None:
-            self._init_seasonal_state(X)
-
         phase = self.num_seen % self.season_length
         return X - self._trend() - self._seasonal(phase)
 
-- 
2.43.0

