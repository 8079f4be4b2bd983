From e8751a119c2704473a05073320f4f30eea9c96a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 01/40] fix: per-label mean and variance of sparse features

The mean skipped the rows of the requested label instead of the others and
paired stored entries with targets by position; the variance counted the
zero entries of every label.
---
 src/sample/feature_struct.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..9c3e575 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -450,9 +450,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|&(i, f)|
+                if target[i] != y { 0.0 } else { weight[i] * f }
             )
             .sum::<f64>()
             / total_weight
@@ -497,14 +496,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From 3d6b27a1aaa5f4ff5d09accad015a1d0adb93b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 02/40] fix: splitting a sample keeps sparse rows at their new
 positions

Rows were stored in sparse features under their position in the shuffled
order of the whole sample, with explicit zeros, so that a fold read back
other (or no) values.
---
 src/sample/sample_struct.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..1d9c596 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -521,10 +521,14 @@ impl Sample {
     }
 
 
-    fn append(&mut self, row: usize, feat: Vec<f64>, y: f64) {
+    fn append(&mut self, feat: Vec<f64>, y: f64) {
+        // The index of the new row in `self.`
+        let row = self.target.len();
         self.features.par_iter_mut()
             .zip(feat)
             .for_each(|(col, f)| {
+                // Sparse features do not store zeros.
+                if col.is_sparse() && f == 0.0 { return; }
                 col.append(row, f);
             });
         self.target.push(y);
@@ -571,19 +575,19 @@ impl Sample {
             }
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(start) {
+        for &ii in ix.iter().take(start) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
+        for &ii in ix.iter().take(end).skip(start) {
             let (x, y) = self.at(ii);
-            test.append(i, x, y);
+            test.append(x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
+        for &ii in ix.iter().take(self.n_sample).skip(end) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(x, y);
         }
 
         (train, test)
-- 
2.43.0


From b06fe6d4047883ff2b166dbd0531d8342916c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 03/40] fix: CrossValidation stops when every row has been
 tested

With n = 11 rows and the default settings the fifth fold started behind the
last row and panicked; with n = 6 it was empty.
---
 src/research/cross_validation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..3a4e6bc 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -157,6 +157,11 @@ impl Iterator for CrossValidation<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_fold >= self.n_folds { return None; }
 
+        // Every row has been used for testing, so that no fold is left.
+        let sample_size = self.sample.shape().0;
+        let test_size = sample_size - self.train_size;
+        if self.current_fold * test_size >= sample_size { return None; }
+
         let output = self.fold_at(self.current_fold);
         self.current_fold += 1;
 
-- 
2.43.0


From 7203f68e16a851824fffdd3e7875d75c4ea60377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 04/40] fix: gradient of the L1 loss points uphill

---
 src/common/loss_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..054c818 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| (p - y).signum())
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From e91dec627ba7b8aa4faa9375bea280194c9515b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 05/40] fix: best coefficient of the L1 and L2 losses minimises
 the loss

---
 src/common/loss_functions.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 054c818..eba1303 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -158,28 +158,37 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
                     )
                     .collect::<Vec<_>>();
 
+                // Every coefficient is equally good for the zero prediction.
+                if items.is_empty() { return 0.0; }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
+                let rp_sum = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let pp_sum = predictions.iter()
+                    .map(|p| p * p)
+                    .sum::<f64>();
 
-                assert_ne!(p_sum, 0.0);
+                // Every coefficient is equally good for the zero prediction.
+                if pp_sum == 0.0 { return 0.0; }
 
-                y_sum / p_sum
+                rp_sum / pp_sum
             },
         }
     }
-- 
2.43.0


From 27e71cabefe1fe1b4f0c3929967a13a1e1382372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 06/40] fix: GBM fits each coefficient to the residuals

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..44bd577 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
-- 
2.43.0


From 33f4eb7e46b8a8bbb3a2e4b7409ec2cca2501a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 07/40] fix: GBM returns the additive model it has fitted

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 44bd577..2ba9843 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,12 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The output is an additive model,
+        // so its coefficients must be kept as they are.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From 40a3f281f2307f1e35322594b739342c95999515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 08/40] fix: the combined hypothesis keeps hypotheses with
 negative weights

AdaBoost, AdaBoostV and MadaBoost put a negative weight on a hypothesis
with a negative edge; dropping it made the run panic (nothing left to
normalise) or return another hypothesis than the one they computed.
---
 src/hypothesis/weighted_majority.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 5e0a9a6..6d2d9fc 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -29,7 +29,7 @@ impl<H: Clone> WeightedMajority<H> {
             .copied()
             .zip(hypotheses)
             .for_each(|(w, h)| {
-                if w > 0.0 {
+                if w.abs() > 0.0 {
                     new_weights.push(w);
                     new_hypotheses.push(h.clone());
                 }
-- 
2.43.0


From 5419c2c3b0852e4c5f8dc3bd619995b0db3f40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 09/40] fix: MadaBoost accumulates the logarithms of its betas

The weights of correctly classified examples grew instead of shrinking:
betas holds ln B = sum y h ln(beta), capped at ln 1 = 0.
---
 src/booster/madaboost/madaboost_algorithm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..541829d 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,7 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        self.betas = vec![0.0; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From 127a840ca6fe029910a9a9ad5bc4371a48301071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 10/40] fix: SmoothBoost averages all of its hypotheses

The weight vector had one entry per training example, so hypotheses
found after round n_sample were left out of the average.
---
 src/booster/smoothboost/smoothboost_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..37b59b7 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From 17783b59e875ab84bd6f2859bb4d3202fe13adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 11/40] fix: SmoothBoost starts its cumulative margins from
 zero

With N_0 = 1 the stopping criterion could hold although kappa or more of
the examples had a margin of at most theta.
---
 src/booster/smoothboost/smoothboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 37b59b7..69d47f9 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
 
 
         self.m = vec![1.0; self.n_sample];
-        self.n = vec![1.0; self.n_sample];
+        self.n = vec![0.0; self.n_sample];
     }
 
 
-- 
2.43.0


From d6a60bfd4ae31174288b6ea98d01f7c3d728a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 12/40] fix: LPBoost caps its distribution at 1/nu

---
 src/booster/lpboost/lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..4f8e127 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -82,7 +82,7 @@ impl LPModel {
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From f10f2af5b2e065076346dca063039a403f27c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 13/40] fix: SoftBoost demands edges below the smallest edge
 minus the tolerance

---
 src/booster/softboost/softboost_algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..5a49d66 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -252,7 +252,12 @@ impl<F> SoftBoost<'_, F>
         self.qp_model.as_ref()
             .expect("Failed to call `.as_ref()` to `self.qp_model`")
             .borrow_mut()
-            .update(self.sample, &mut self.dist[..], self.gamma_hat, h)
+            .update(
+                self.sample,
+                &mut self.dist[..],
+                self.gamma_hat - self.tolerance,
+                h,
+            )
     }
 }
 
-- 
2.43.0


From afc717f96d14f09b07774804c0371834a7bdf13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 14/40] fix: SoftBoost caps its distribution at 1/nu

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..706f4ec 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From b75a751e30a36e19fb6318e59cce18fb08325e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 15/40] fix: SoftBoost stops when its constraints are
 infeasible

---
 src/booster/softboost/qp_model.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 706f4ec..75c4c56 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -140,6 +140,13 @@ impl QPModel {
             );
 
             solver.solve();
+            // breaks if no distribution satisfies the constraints.
+            if !matches!(
+                solver.solution.status,
+                SolverStatus::Solved | SolverStatus::AlmostSolved
+            ) {
+                return None;
+            }
             let solution = &solver.solution.x[..];
 
             // breaks if there is a zero-valued coordinate in the solution.
-- 
2.43.0


From 63f4c542d5462c59abe67b0d8bae398ef6ba16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 16/40] fix: SoftBoost makes at least one round

---
 src/booster/softboost/softboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index 5a49d66..d123c6a 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -221,7 +221,8 @@ impl<'a, F> SoftBoost<'a, F>
         let temp = (n_sample / self.nu).ln();
         let max_iter = 2.0 * temp / self.tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // At least one hypothesis is necessary, even if `nu == n_sample.`
+        (max_iter.ceil() as usize).max(1)
     }
 }
 
-- 
2.43.0


From 3f57557070ba946779b68434a527573542e459e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 17/40] fix: ERLPBoost does not stop before its first
 hypothesis

---
 src/booster/erlpboost/erlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/erlpboost/erlpboost_algorithm.rs b/src/booster/erlpboost/erlpboost_algorithm.rs
index c810573..5f0ecbe 100644
--- a/src/booster/erlpboost/erlpboost_algorithm.rs
+++ b/src/booster/erlpboost/erlpboost_algorithm.rs
@@ -373,7 +373,7 @@ impl<F> Booster<F> for ERLPBoost<'_, F>
         self.hypotheses = Vec::new();
 
         self.gamma_hat = 1.0;
-        self.gamma_star = -1.0;
+        self.gamma_star = f64::MIN;
 
 
         assert!((0.0..1.0).contains(&self.half_tolerance));
-- 
2.43.0


From 0f4595fb99052a659bec2a8ef7c10bfa8c3710b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 18/40] fix: CERLPBoost does not stop before its first
 hypothesis

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..811eeda 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -356,7 +356,7 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
         let diff = new_edge - old_edge;
 
         // Update the parameters
-        if diff <= self.half_tolerance {
+        if !self.hypotheses.is_empty() && diff <= self.half_tolerance {
             self.terminated = iteration;
             return ControlFlow::Break(iteration);
         }
-- 
2.43.0


From 07e13b367fe78f6b31fde0e583695f0289b74bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 19/40] fix: CERLPBoost makes at least one round

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 811eeda..5b80c26 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -229,7 +229,8 @@ impl<'a, F> CERLPBoost<'a, F> {
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // At least one round, also for `nu == m`.
+        (max_iter.ceil() as usize).max(1)
     }
 
 
-- 
2.43.0


From 912fc3eb82047c0308d0063226a2c9e210234939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 20/40] fix: line search climbs the smoothed objective

---
 src/common/frank_wolfe.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..1ef1017 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -193,6 +193,9 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
+        if hypotheses.len() == 1 { return vec![1.0]; }
+
+
         // base: w
         // dir:  e_h - w
         let base = weights.clone();
@@ -215,8 +218,11 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
@@ -224,7 +230,8 @@ impl FrankWolfe {
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        // The smoothed objective is concave and still increasing.
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +256,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
-- 
2.43.0


From 01a4ffd340c0642ba02946edcccb0f693076ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 21/40] fix: blended pairwise steps move weight from the worst
 to the best active hypothesis

---
 src/common/frank_wolfe.rs | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 1ef1017..04bc92c 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -286,10 +286,11 @@ impl FrankWolfe {
         // Find a hypothesis that has a smallest edge.
         let mut worst_edge = 2.0;
         let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
+        let mut global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one]
+        );
         let mut position_of_worst_one = hypotheses.len();
         let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -302,14 +303,13 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
                 if edge > global_best_edge {
                     global_best_edge = edge;
-                    position_of_global_best_one = j;
                 }
 
 
@@ -319,14 +319,6 @@ impl FrankWolfe {
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
-
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
         );
@@ -360,20 +352,19 @@ impl FrankWolfe {
 
             let margins = dir_margins.iter()
                 .zip(base_margins.iter())
-                .map(|(dir, cur)| cur + max_stepsize * dir)
-                .collect::<Vec<_>>();
+                .map(|(dir, cur)| cur + max_stepsize * dir);
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins,
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Add `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
+                weights[position_of_local_best_one] += max_stepsize;
                 weights[position_of_worst_one] = 0.0;
                 return weights;
             }
@@ -394,9 +385,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From 34a79a78adb226bb10e2188b95ff4cc188ca7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 22/40] fix: the linear program of MLPBoost caps its
 distribution at 1/nu

---
 src/booster/mlpboost/perturbed_lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..a166d87 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -179,7 +179,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From 55ed24cb069b54071842cc3261d12782e2dff71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 23/40] fix: MLPBoost makes at least one round

---
 src/booster/mlpboost/mlpboost_algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..52a58fc 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -297,7 +297,9 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        // At least one round, also for `nu == m`.
+        let max_iter = (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil();
+        (max_iter as usize).max(1)
     }
 
 
-- 
2.43.0


From 5ddf727df64fb03d4ec7d6d514e8123b30182918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 24/40] fix: MLPBoost does not divide by zero if nu is the
 number of examples

---
 src/booster/mlpboost/mlpboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index 52a58fc..c7fca40 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -259,7 +259,8 @@ impl<'a, F> MLPBoost<'a, F> {
     #[inline(always)]
     fn eta(&mut self) {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        self.eta = ln_m / self.half_tolerance;
+        // Positive also for `nu == m`, as in ERLPBoost.
+        self.eta = 0.5f64.max(ln_m / self.half_tolerance);
         self.primary.eta(self.eta);
     }
 
-- 
2.43.0


From 3565c554f56f4ca547227ece8c21e3772ef59f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 25/40] fix: bins of features with a tiny or huge range

---
 src/weak_learner/decision_tree/bin.rs   | 53 +++++++------------------
 src/weak_learner/regression_tree/bin.rs | 53 +++++++------------------
 2 files changed, 30 insertions(+), 76 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..f9fc6b5 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -17,9 +17,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -117,26 +114,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
-
-        Self(bins)
+        Self::equal_width(min, max, n_bin)
     }
 
 
@@ -171,24 +149,23 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
+        Self::equal_width(min, max, n_bin)
+    }
 
-            left = right;
-        }
 
+    /// Cut the range `[min, max)` into `n_bin` bins of the same width.
+    /// The bounds are computed one by one
+    /// so that the numerical error does not accumulate.
+    fn equal_width(min: f64, max: f64, n_bin: usize) -> Self {
+        let intercept = (max - min) / n_bin as f64;
 
-        assert_eq!(bins.len(), n_bin);
+        let bins = (0..n_bin)
+            .map(|k| {
+                let left = min + k as f64 * intercept;
+                let right = min + (k + 1) as f64 * intercept;
+                Bin::new(left..right)
+            })
+            .collect();
 
         Self(bins)
     }
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..e893ca9 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -13,9 +13,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -117,26 +114,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
-
-        Self(bins)
+        Self::equal_width(min, max, n_bin)
     }
 
 
@@ -171,24 +149,23 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
+        Self::equal_width(min, max, n_bin)
+    }
 
-            left = right;
-        }
 
+    /// Cut the range `[min, max)` into `n_bin` bins of the same width.
+    /// The bounds are computed one by one
+    /// so that the numerical error does not accumulate.
+    fn equal_width(min: f64, max: f64, n_bin: usize) -> Self {
+        let intercept = (max - min) / n_bin as f64;
 
-        assert_eq!(bins.len(), n_bin);
+        let bins = (0..n_bin)
+            .map(|k| {
+                let left = min + k as f64 * intercept;
+                let right = min + (k + 1) as f64 * intercept;
+                Bin::new(left..right)
+            })
+            .collect();
 
         Self(bins)
     }
-- 
2.43.0


From f8bf8ec7d549fe581008d3467134eddf8689c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 26/40] fix: regression trees split nodes whose gradients sum
 to zero

---
 src/weak_learner/regression_tree/regression_tree_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..6850b01 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,8 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If the tree cannot grow any more, construct a leaf node.
+        if max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
-- 
2.43.0


From 1f6177c9cd1847c1b7215441f5f799013809bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 27/40] fix: regression trees keep bins whose gradients cancel
 out

---
 src/weak_learner/regression_tree/bin.rs | 44 +++++++++++++------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index e893ca9..24ca286 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -182,6 +182,7 @@ impl Bins {
         let n_bins = self.0.len();
         let mut grad_pack = vec![0f64; n_bins];
         let mut hess_pack = vec![0f64; n_bins];
+        let mut count = vec![0_usize; n_bins];
 
         for &i in indices {
             let xi = feat[i];
@@ -196,48 +197,49 @@ impl Bins {
                 .unwrap();
             grad_pack[pos] += gradient[i];
             hess_pack[pos] += hessian[i];
+            count[pos] += 1;
         }
-        self.remove_zero_weight_pack_and_normalize(grad_pack, hess_pack)
+        self.remove_empty_pack(grad_pack, hess_pack, count)
     }
 
 
 
-    /// This method removes bins with zero weights.
+    /// This method removes bins without examples.
     /// # Example
-    /// Assume that we have bins and its weight.
+    /// Assume that we have bins and the number of examples in them.
     /// ```text
     /// Bins       | [-3.0, 2.5), [2.5, 7.0), [7.0, 8.1), [8.1, 9.0)
-    /// Weights(+) |     0.5,        0.0,        0.0,        0.2
-    /// Weights(-) |     0.0,        0.0,        0.0,        0.1
+    /// Examples   |       5,          0,          0,          2
     /// ```
-    /// This method remove zero-weight bins and normalize the weights
-    /// like this:
+    /// This method merges the empty bins to their neighbors like this:
     /// ```text
     /// Bins       | [-3.0, 5.3), [5.3, 9.0)
-    /// Weights(+) |     0.625,      0.25
-    /// Weights(-) |     0.0,        0.125
+    /// Examples   |       5,          2
     /// ```
-    /// That is, this method
-    /// - Change the bin bounds,
-    /// - 
-    fn remove_zero_weight_pack_and_normalize(
+    /// Note that a bin may have examples
+    /// even if its gradient and hessian are zero.
+    fn remove_empty_pack(
         &self,
         grad_pack: Vec<Gradient>,
         hess_pack: Vec<Hessian>,
+        count: Vec<usize>,
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
-        let mut iter = self.0.iter().zip(grad_pack.into_iter().zip(hess_pack));
+        let n_left_most = count[0];
+        let mut iter = self.0.iter()
+            .zip(grad_pack.into_iter().zip(hess_pack))
+            .zip(count);
 
-        let (prev_bin, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
+        let ((prev_bin, (mut prev_grad, mut prev_hess)), _)
+            = iter.next().unwrap();
 
         let mut prev_bin = Bin::new(prev_bin.0.clone());
-        let mut iter = iter.filter(|(_, (grad, hess))| {
-            *grad != 0.0 || *hess != 0.0
-        });
+        let mut iter = iter.filter(|(_, n_example)| *n_example > 0)
+            .map(|(item, _)| item);
 
-        // The left-most bin might have zero weight.
-        // In this case, find the next non-zero weight bin and merge.
-        if prev_grad == 0.0 && prev_hess == 0.0 {
+        // The left-most bin might be empty.
+        // In this case, find the next non-empty bin and merge.
+        if n_left_most == 0 {
             let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
 
             let start = prev_bin.0.start;
-- 
2.43.0


From bc390fabd02c5c5d28962746edca5a150bf32ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 28/40] fix: Gini criterion does not panic on tiny weights

---
 src/weak_learner/decision_tree/criterion.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..6aa23fc 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -285,12 +285,14 @@ fn split_by_gini(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
             right_weight_sum -= w;
 
-
-            if *entry <= 0f64 { right_weight.remove(&y); }
+            // The label may have been removed
+            // since its weight vanished by the numerical error.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0


From e9ac0a9bef767283c1d33ed28838d42b593882ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 29/40] fix: the last bin is no candidate for a split of
 regression trees

---
 .../regression_tree/regression_tree_algorithm.rs          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index 6850b01..a227266 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -299,11 +299,15 @@ fn best_split_at(
     let mut left_hess_sum = 0.0;
 
 
-    let mut best_score = f64::MIN;
+    // The score of the node without a split.
+    let mut best_score = right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
     let mut best_threshold = f64::MIN;
 
 
-    for (bin, grad, hess) in pack {
+    // The last bin is excluded since it yields no split;
+    // the right sums for it are nothing but numerical errors.
+    let n_split = pack.len() - 1;
+    for (bin, grad, hess) in pack.into_iter().take(n_split) {
         left_grad_sum  += grad;
         left_hess_sum  += hess;
         right_grad_sum -= grad;
-- 
2.43.0


From e08a85ed98a0939826420d39ba9029af7c340bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 30/40] fix: the Gaussian density counts the variance of a
 feature once

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 43ebda63d0cd1cf7eca804b3aaed7c31263be682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 31/40] fix: naive Bayes does not yield NaN for features
 without variance

---
 src/weak_learner/naive_bayes/probability.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index aa787f7..2230759 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -8,6 +8,11 @@ use core::f64::consts::PI;
 use crate::Sample;
 
 
+/// Lower bound of the variances.
+/// A feature without variance would yield `NaN`.
+const MINIMAL_VARIANCE: f64 = 1e-9;
+
+
 pub trait Probability {
     fn log_probability(&self, sample: &Sample, row: usize) -> f64;
 
@@ -44,6 +49,7 @@ impl Probability for Gaussian {
             .zip(sample.features())
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
+                let var = var.max(MINIMAL_VARIANCE);
 
                 ((x - mean).powi(2) / var) + var.ln()
             })
-- 
2.43.0


From f071912f242e79f3d8648c8218b1db07bec194d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 32/40] fix: the probabilities of naive Bayes sum to one

---
 .../naive_bayes/nbayes_classifier.rs          | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index 894c8a0..dce8ca8 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -32,20 +32,28 @@ impl<P> NBayesClassifier<P>
             density
         }
     }
-    /// Computes the logarithmic probability of the classes +/- 
+    /// Computes the probability of the classes
     /// for the given instance.
     pub fn probabilities(&self, sample: &Sample, row: usize)
         -> Vec<(f64, f64)>
     {
-        let log_all = self.density.log_probability(sample, row);
-
-        self.conditionals.iter()
+        let log_joint = self.conditionals.iter()
             .map(|(y, prior, density)| {
                 let log_cond = density.log_probability(sample, row);
-                let prob = prior * (log_cond - log_all).exp();
-                (*y, prob)
+                (*y, prior.ln() + log_cond)
             })
-            .collect::<Vec<_>>()
+            .collect::<Vec<_>>();
+
+        let max = log_joint.iter()
+            .map(|(_, log_prob)| *log_prob)
+            .fold(f64::NEG_INFINITY, f64::max);
+        let total = log_joint.iter()
+            .map(|(_, log_prob)| (log_prob - max).exp())
+            .sum::<f64>();
+
+        log_joint.into_iter()
+            .map(|(y, log_prob)| (y, (log_prob - max).exp() / total))
+            .collect()
     }
 
     // /// Computes the probability of the classes +/- 
-- 
2.43.0


From 9f2a155e7d57761dd686ab39531f7b9a801f17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 33/40] fix: neural networks with a single output do not
 predict the opposite label

---
 src/common/task.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
-- 
2.43.0


From 2e2e7906a322ca77af500baa09f6b5e0ed5f9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 34/40] fix: the derivative of the sigmoid activation

---
 src/weak_learner/neural_network/activation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..cf29e3f 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -84,8 +84,8 @@ fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
     let x = x.as_ref();
     x.iter()
         .map(|xi| {
-            let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
+            let s = 1.0 / (1.0 + (-eta * xi).exp());
+            eta * s * (1.0 - s)
         })
         .collect()
 }
-- 
2.43.0


From 1d0e2d1aca3d17fd0ad28fec797f20dd2cf55811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 35/40] fix: the worst-case weak learner accepts the number of
 examples as capping parameter

---
 src/weak_learner/bad_learner/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/bad_learner/builder.rs b/src/weak_learner/bad_learner/builder.rs
index e445a02..fe5d937 100644
--- a/src/weak_learner/bad_learner/builder.rs
+++ b/src/weak_learner/bad_learner/builder.rs
@@ -43,7 +43,7 @@ impl BadBaseLearnerBuilder {
     /// By default, it is set as `DEFAULT_NU: f64 = 1f64.`
     pub fn nu(mut self, nu: f64) -> Self {
         assert!(
-            (1f64..self.n_sample as f64).contains(&nu),
+            (1f64..=self.n_sample as f64).contains(&nu),
             "The capping parameter must be in `[1, n_sample]`"
         );
         self.nu = nu;
-- 
2.43.0


From 5fe4e52a7adfc7c3d26151e585b6ac7f216886d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 36/40] fix: targets beyond the range of i32 are not collapsed
 by the check of binary instances

---
 src/sample/sample_struct.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 1d9c596..e4a5731 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -1,7 +1,7 @@
 use std::path::Path;
 use std::fs::File;
 use std::io::{self, BufRead, BufReader};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Index;
 use std::mem;
 use std::cmp::Ordering;
@@ -403,10 +403,7 @@ impl Sample {
 
 
         // Check whether the target values takes exactly 2 kinds.
-        let set = self.target.iter()
-            .copied()
-            .map(|yi| yi as i32)
-            .collect::<HashSet<_>>();
+        let set = self.unique_target();
         let n_label = set.len();
         match set.len().cmp(&2) {
             Ordering::Greater => {
@@ -426,7 +423,7 @@ impl Sample {
 
 
         // Check whether the target values takes +1 or -1.
-        let is_pm = set.iter().all(|y| y.eq(&1) || y.eq(&-1));
+        let is_pm = set.iter().all(|y| y.eq(&1.0) || y.eq(&-1.0));
         if !is_pm {
             let line = set.iter()
                 .map(|y| y.to_string())
-- 
2.43.0


From 01a1bb0489015720a1bb96e26750af11c51e568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 37/40] fix: rounds shorter than a millisecond count towards
 the time limit of the logger

---
 src/research/logger.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/research/logger.rs b/src/research/logger.rs
index 523826e..cb16fb7 100644
--- a/src/research/logger.rs
+++ b/src/research/logger.rs
@@ -11,7 +11,7 @@ use super::ObjectiveFunction;
 use std::fs::File;
 use std::io::prelude::*;
 use std::path::Path;
-use std::time::Instant;
+use std::time::{Duration, Instant};
 use std::ops::ControlFlow;
 
 const DEFAULT_ROUND: usize = 100;
@@ -225,7 +225,7 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
 
         // Cumulative time
-        let mut time_acc = 0;
+        let mut duration_acc = Duration::ZERO;
 
         // ---------------------------------------------------------------------
         // Boosting step
@@ -236,11 +236,11 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
             let flow = self.booster.boost(&self.weak_learner, iter);
 
-            // Stop measuring and convert `Duration` to Milliseconds.
-            let time = now.elapsed().as_millis();
+            // Stop measuring and update the cumulative time.
+            duration_acc += now.elapsed();
 
-            // Update the cumulative time
-            time_acc += time;
+            // Convert `Duration` to Milliseconds.
+            let time_acc = duration_acc.as_millis();
 
             let hypothesis = self.booster.current_hypothesis();
 
-- 
2.43.0


From 3347a91814e99a813ddf5bae67709fe4fea63985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 38/40] fix: gradients through hidden SoftMax layers use the
 full Jacobian

Only its diagonal was used, so every layer below a softmax layer was trained
with a wrong gradient.
---
 src/weak_learner/neural_network/activation.rs | 25 +++++++++++++++++++
 .../neural_network/nn_hypothesis.rs           | 19 ++++++++------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index cf29e3f..dc925d3 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -32,6 +32,31 @@ impl Activation {
             Self::Id => id_diff(x),
         }
     }
+
+    /// Returns the product of the Jacobian at `x` and `v`.
+    /// Each output of [`Activation::SoftMax`] depends on all inputs,
+    /// so its Jacobian is not the diagonal matrix `self.diff(x)`.
+    pub(crate) fn backward<T: AsRef<[f64]>>(&self, x: T, v: Vec<f64>)
+        -> Vec<f64>
+    {
+        match self {
+            Self::SoftMax(eta) => {
+                let probabilities = softmax(*eta, x);
+                let mean = utils::inner_product(&probabilities, &v);
+                probabilities.into_iter()
+                    .zip(v)
+                    .map(|(p, vi)| eta * p * (vi - mean))
+                    .collect()
+            },
+            _ => {
+                self.diff(x)
+                    .into_iter()
+                    .zip(v)
+                    .map(|(df, vi)| df * vi)
+                    .collect()
+            },
+        }
+    }
 }
 
 
diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 947802a..d426ce9 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -1,7 +1,6 @@
 use crate::{Sample, Classifier, Regressor};
 use crate::common::{
     task,
-    utils,
     task::Task,
 };
 use super::{
@@ -143,8 +142,12 @@ impl NNHypothesis {
         let indices = indices.as_ref();
         let batch_size = indices.len();
         let n_layers = self.layers.len();
-        // Keep sub-gradients for all layers.
-        let mut dfs = vec![Vec::with_capacity(batch_size); n_layers-1];
+        // Keep the inputs for activation functions
+        // of each layer but the last one.
+        let mut inputs = vec![Vec::with_capacity(batch_size); n_layers-1];
+        let mut activations = self.layers[..n_layers-1].iter()
+            .map(|layer| layer.activation)
+            .collect::<Vec<_>>();
         // Keep the outputs for activation functions
         // of each layer for back propagation.
         let mut outputs = vec![Vec::with_capacity(batch_size); n_layers];
@@ -169,8 +172,7 @@ impl NNHypothesis {
                     let z = layer.nonlinear(&u);
 
                     if l+1 < n_layers {
-                        let df = layer.activation.diff(u);
-                        dfs[l].push(df);
+                        inputs[l].push(u);
                     }
 
                     z
@@ -205,8 +207,11 @@ impl NNHypothesis {
 
 
             // Update `delta` for the next layer
-            if let Some(df) = dfs.pop() {
-                delta = utils::hadamard_product(df, delta_x_weights);
+            if let Some((u, act)) = inputs.pop().zip(activations.pop()) {
+                delta = u.into_iter()
+                    .zip(delta_x_weights)
+                    .map(|(u, v)| act.backward(u, v))
+                    .collect();
             }
         }
     }
-- 
2.43.0


From 4d013ed81458d4a157e7c61440f31781deca9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 39/40] fix: explicitly listed zeros of a sparse feature are
 not counted as another value

---
 src/sample/feature_struct.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 9c3e575..58f4cbc 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -421,15 +421,16 @@ impl SparseFeature {
 
     fn distinct_value_count(&self) -> usize {
     
-        let values = self.sample[..]
+        let mut values = self.sample[..]
             .iter()
             .map(|(_, v)| *v)
             .collect::<Vec<_>>();
-        let mut uniq_value_count = inner_distinct_value_count(values);
+        // A file may list zeros explicitly,
+        // so the implicit ones are not a value of their own.
         if self.has_zero() {
-            uniq_value_count += 1;
+            values.push(0.0);
         }
-        uniq_value_count
+        inner_distinct_value_count(values)
     }
 
 
-- 
2.43.0


From 879206e8b81a8ad22638107deb69b65e9fc9fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:21 +0000
Subject: [PATCH 40/40] fix: rounding errors of the solver are no violation of
 the capping constraint

---
 src/common/checker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/checker.rs b/src/common/checker.rs
index 9e88e6a..478f384 100644
--- a/src/common/checker.rs
+++ b/src/common/checker.rs
@@ -57,9 +57,11 @@ pub(crate) fn check_capped_simplex_condition(
     }
     assert!((sum - 1f64).abs() < SIMPLEX_TOLERANCE, "sum(dist[..]) = {sum}");
 
-    let ub = 1f64 / nu;
+    // The entries may come from a numerical solver, as their sum does.
+    let lb = -SIMPLEX_TOLERANCE;
+    let ub = 1f64 / nu + SIMPLEX_TOLERANCE;
     assert!(
-        slice.iter().all(|s| (0f64..=ub).contains(s)),
+        slice.iter().all(|s| (lb..=ub).contains(s)),
         "capping constraint is violated!"
     );
 }
-- 
2.43.0

