From 9314645935bec7f8e6bf066990c2b325b7e47183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 01/12] fix: impressions_by_spend must bisect the spends in
 sorted order

The spend list was built from the caller's unsorted log, so the number of
impressions for a spend was wrong for any log not already sorted by spend.
---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From 16ee4ea69073a34121a55ebd16d56861204914f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 02/12] fix: import randint so that an unnamed DataSet can be
 constructed

---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From 6f42164f37d780958a5058fe171195b55c1f0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 03/12] fix: name publishers read from disk by the last path
 component

With the full path as the name, writing a data set that had been read from
disk to another directory overwrote the source files instead.
---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From 99695e0d6f94f8d2707859d621cdd75cc07422b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 04/12] fix: generate at least the minimum number of uniformly
 random test points

---
 src/driver/uniformly_random_test_point_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/uniformly_random_test_point_generator.py b/src/driver/uniformly_random_test_point_generator.py
index da57b74..a7857c3 100644
--- a/src/driver/uniformly_random_test_point_generator.py
+++ b/src/driver/uniformly_random_test_point_generator.py
@@ -70,5 +70,5 @@ class UniformlyRandomTestPointGenerator(TestPointGenerator):
           surface.
         """
         num_points = max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS)
-        for i in range(self._npoints):
+        for i in range(num_points):
             yield list(self._max_spends * self._rng.random(size=self._npublishers))
-- 
2.43.0


From 2b58094511847d391f0e4f780a5276497de240ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 05/12] fix: Latin hypercube test points must depend only on
 the given rng

pyDOE draws from the global numpy random state, which a modeling strategy may
have advanced, so strategies evaluated against the same data set with the same
seed were compared at different test points.
---
 src/driver/latin_hypercube_random_test_point_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..ca9931a 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -78,6 +78,8 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
+        # pyDOE draws from the global numpy random state, so seed it from rng.
+        np.random.seed(self._rng.integers(low=0, high=1e9))
         design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
-- 
2.43.0


From d7ebac04074b80dba9017793670000b0f1c1b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 06/12] fix: do not accept a truncated trial result as
 previously computed

A crash while the result file was being written left a prefix of it, which was
later returned as a frame with no row or with missing values.
---
 src/driver/experimental_trial.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..d060edf 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -20,6 +20,7 @@ against a specific DataSet, with specific SystemParameters.
 from absl import logging
 from datetime import datetime
 import hashlib
+from io import StringIO
 import numpy as np
 import pandas as pd
 from os.path import isfile, join
@@ -152,7 +153,13 @@ class ExperimentalTrial:
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
-                    return pd.read_csv(file)
+                    contents = file.read()
+                if not contents.endswith("\n"):
+                    raise ValueError("Result file is truncated")
+                result = pd.read_csv(StringIO(contents))
+                if len(result) != 1:
+                    raise ValueError(f"Result file has {len(result)} rows")
+                return result
             except Exception as e:
                 filesystem.unlink(trial_results_path)
                 logging.vlog(
-- 
2.43.0


From 7a4469f76373734d7c296b045e7d548bc63ae59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 07/12] fix: trial results must not depend on which trials were
 evaluated before

The trials of one descriptor share its random generator, so a sequential run, a
run on several cores and a resumed run gave different results.
---
 src/driver/experimental_trial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index d060edf..c3a2569 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -19,6 +19,7 @@ against a specific DataSet, with specific SystemParameters.
 
 from absl import logging
 from datetime import datetime
+import copy
 import hashlib
 from io import StringIO
 import numpy as np
@@ -179,9 +180,10 @@ class ExperimentalTrial:
 
         dataset = self._data_design.by_name(self._data_set_name)
         privacy_tracker = PrivacyTracker()
-        halo = HaloSimulator(
-            dataset, self._trial_descriptor.system_params, privacy_tracker
-        )
+        # Trials may share a generator, so each evaluation uses its own copy.
+        # Otherwise, the results would depend on the order of evaluation.
+        system_params = copy.deepcopy(self._trial_descriptor.system_params)
+        halo = HaloSimulator(dataset, system_params, privacy_tracker)
         privacy_budget = self._trial_descriptor.experiment_params.privacy_budget
         modeling_strategy = (
             self._trial_descriptor.modeling_strategy.instantiate_strategy()
@@ -190,7 +192,7 @@ class ExperimentalTrial:
         max_frequency = self._trial_descriptor.experiment_params.max_frequency
         try:
             reach_surface = modeling_strategy.fit(
-                halo, self._trial_descriptor.system_params, privacy_budget
+                halo, system_params, privacy_budget
             )
             test_points = list(
                 self._trial_descriptor.experiment_params.generate_test_points(
-- 
2.43.0


From ea5c1e02b2dd936b701e2b2bcca2566697f29565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:16 +0000
Subject: [PATCH 08/12] fix: Venn diagram reaches must not be negative

The noised cardinality estimate can fall below zero for a small audience or a
small budget, which turned every reach of the diagram negative.
---
 src/simulator/halo_simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simulator/halo_simulator.py b/src/simulator/halo_simulator.py
index 5df8fb7..9bf2ee8 100644
--- a/src/simulator/halo_simulator.py
+++ b/src/simulator/halo_simulator.py
@@ -577,8 +577,13 @@ class HaloSimulator:
                 seed=self._params.generator.integers(low=0, high=1e9)
             ),
         )
-        cardinality_estimate = noiser(
-            self._params.generator.normal(true_cardinality, std_cardinality_estimate)
+        cardinality_estimate = max(
+            0,
+            noiser(
+                self._params.generator.normal(
+                    true_cardinality, std_cardinality_estimate
+                )
+            ),
         )
         noise_event = NoisingEvent(
             PrivacyBudget(
-- 
2.43.0


From 88d62639100b3fbc78865f9b1815daf613f5403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:44 +0000
Subject: [PATCH 09/12] fix: extrapolated k-inflated fit must match the
 observed 1+ reach

When the inventory was required to exceed the observed impressions, the
initial exponential-poisson model attributed the observed reach to that
larger number of impressions.
---
 src/models/kinflated_gamma_poisson_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index ea407e3..9decbf1 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -446,8 +446,7 @@ class KInflatedGammaPoissonModel(ReachCurve):
           exponential-poisson distribution.
         """
         impressions = point.impressions[0]
-        if Imin is not None and impressions < Imin:
-            impressions = Imin
+        Imin = impressions if Imin is None else max(Imin, impressions)
         reach = point.reach()
         if len(point.frequencies) > 1:
             # Estimate the mean from the distribution found in the reach point
@@ -461,7 +460,13 @@ class KInflatedGammaPoissonModel(ReachCurve):
         # Check if the chosen values of N, beta result in an impossibly low
         # number of impressions.  If so, adjust them upwards.
         Imax = N * (beta + 1)
-        while Imax < impressions:
+        if Imax < Imin and 0 < reach < impressions:
+            # Among the models that match the 1+ reach of the point, choose
+            # the one having Imin impressions in its inventory.
+            beta = Imin * (impressions - reach) / (impressions * reach)
+            N = self._exponential_poisson_N_from_beta(impressions, reach, beta)
+            Imax = N * (beta + 1)
+        while Imax < Imin * (1 - 1e-9):
             N = max(1, 1.1 * N)
             beta = self._exponential_poisson_beta(impressions, N, reach)
             Imax = N * (beta + 1)
-- 
2.43.0


From f831f76609afcf8dd2e65dac55402f0faef05294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 10/12] fix: compare mixture fits by the loss that was
 minimised

The quadratic program minimises x'Px/2 + q'x, but the fits from different
starting points were compared by x'Px + q'x.
---
 src/models/generalized_mixture_reach_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/generalized_mixture_reach_surface.py b/src/models/generalized_mixture_reach_surface.py
index 34530c4..f2c35b0 100644
--- a/src/models/generalized_mixture_reach_surface.py
+++ b/src/models/generalized_mixture_reach_surface.py
@@ -212,7 +212,7 @@ class GeneralizedMixtureReachSurface(ReachSurface):
 
     def _loss(self, a):
         return (
-            np.matmul(np.matmul(np.transpose(a), self._P), a)
+            np.matmul(np.matmul(np.transpose(a), self._P), a) / 2
             + np.matmul(np.transpose(self._q), a)
         )[0]
 
-- 
2.43.0


From e76da25fe2c8a19866d4ae2f5667ccaed854d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:08 +0000
Subject: [PATCH 11/12] fix: a measured reach of zero must not turn a
 successful trial into a failed one

---
 src/driver/experimental_trial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index c3a2569..761bbe2 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -355,7 +355,8 @@ class ExperimentalTrial:
                         (i + 1)
                         for i, f in enumerate(training_point._kplus_reaches)
                         if f != 0
-                    ]
+                    ],
+                    default=0,
                 )
             ]
             if training_point._kplus_reaches
@@ -363,7 +364,12 @@ class ExperimentalTrial:
         )
         data_point = halo.true_reach_by_spend(halo.campaign_spends, max_frequency)
         results["max_nonzero_frequency_from_data"] = (
-            [max([(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0])]
+            [
+                max(
+                    [(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0],
+                    default=0,
+                )
+            ]
             if data_point._kplus_reaches
             else [0]
         )
-- 
2.43.0


From 68b1771f55b076186129ade7687fc174aad3aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:21 +0000
Subject: [PATCH 12/12] fix: Dirac mixture reach of audiences above 2**31
 overflows to negative numbers

---
 src/models/dirac_mixture_single_publisher_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 84b2608..14ff63d 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -408,7 +408,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
         kplus_reaches = (
             (self._reach_point.universe_size * relative_kplus_reaches_from_zero[1:])
             .round(0)
-            .astype("int32")
+            .astype("int64")
         )
 
         if self._cpi:
-- 
2.43.0

