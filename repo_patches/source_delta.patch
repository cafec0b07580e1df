From 3272d1f214fb16d2d06f44f2c09aa585b04d6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 01/30] fix: LPBoost penalises slack by 1/nu so that the
 example weights are capped

---
 src/booster/lpboost/lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..4f8e127 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -82,7 +82,7 @@ impl LPModel {
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From 04d21680f09347736b4dfe897d23574339ea2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 02/30] fix: SoftBoost QP caps each example weight at 1/nu

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..706f4ec 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From 129063187bc69ebb05602b99dc2a288f83e7d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 03/30] fix: MLPBoost secondary LP caps each example weight at
 1/nu

---
 src/booster/mlpboost/perturbed_lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..a166d87 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -179,7 +179,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From 3d709b66d1a6d7dc005c67bd71fbfb8593a9d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 04/30] fix: MadaBoost accumulates log beta and caps the log
 weight at 0

---
 src/booster/madaboost/madaboost_algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..d1b94ba 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -209,9 +209,10 @@ impl<'a, F> MadaBoost<'a, F> {
 
 
         // To prevent overflow, take the logarithm.
+        let log_beta = beta.ln();
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * log_beta; });
 
 
         alpha
@@ -224,7 +225,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +297,7 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        self.betas = vec![0f64; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From 914384370151ecc02abf111c1640fd40f9831ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 05/30] fix: SmoothBoost keeps every hypothesis in the combined
 classifier

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..37b59b7 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From cbf7e0c21025cdbc4da1eecf983dafdf86f29024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 06/30] fix: SmoothBoost starts the accumulated margins at zero

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 37b59b7..69d47f9 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
 
 
         self.m = vec![1.0; self.n_sample];
-        self.n = vec![1.0; self.n_sample];
+        self.n = vec![0.0; self.n_sample];
     }
 
 
-- 
2.43.0


From 2bac33f4931072139d6b725bcc0da9a9f8e324d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 07/30] fix: WeightedMajority::from_slices keeps negatively
 weighted hypotheses

---
 src/hypothesis/weighted_majority.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 5e0a9a6..9edcf03 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -29,7 +29,7 @@ impl<H: Clone> WeightedMajority<H> {
             .copied()
             .zip(hypotheses)
             .for_each(|(w, h)| {
-                if w > 0.0 {
+                if w != 0.0 {
                     new_weights.push(w);
                     new_hypotheses.push(h.clone());
                 }
-- 
2.43.0


From 66b2c3d9e688ec463a11477d15cbf345744484f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 08/30] fix: GBM searches the coefficient on the residuals

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..44bd577 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
-- 
2.43.0


From 43d939d414296f213af4bfbe1965a60861df2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 09/30] fix: GBM does not rescale its coefficients

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 44bd577..9873dc0 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,12 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The output of a regressor is not scale-invariant:
+        // do not normalize the coefficients.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From 3cf0f7f5f407ee89aba4057561e75808640bbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 10/30] fix: best coefficients minimize the loss

---
 src/common/loss_functions.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..8e0ebd7 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -171,15 +171,24 @@ impl LossFunction for GBMLoss {
                     )
                     .collect::<Vec<_>>();
 
+                // Every coefficient attains the same loss.
+                if items.is_empty() { return 0.0; }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
+                let yp_sum = targets.iter()
+                    .zip(predictions)
+                    .map(|(y, p)| y * p)
+                    .sum::<f64>();
+                let pp_sum = predictions.iter()
+                    .map(|p| p * p)
+                    .sum::<f64>();
 
-                assert_ne!(p_sum, 0.0);
+                // Every coefficient attains the same loss.
+                if pp_sum == 0.0 { return 0.0; }
 
-                y_sum / p_sum
+                yp_sum / pp_sum
             },
         }
     }
-- 
2.43.0


From 9237eccc74e3e3ea248e949644d7448a169068fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 11/30] fix: gradient of L1 loss has the sign of the error

---
 src/common/loss_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 8e0ebd7..1ca4042 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| (p - y).signum())
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From a73564e6a2a869e67a4bde3725b3aa66441c5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 12/30] fix: conditional mean of a sparse feature uses the
 labels of its own rows

---
 src/sample/feature_struct.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..ca5cfb3 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -450,9 +450,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|(i, f)|
+                if target[*i] != y { 0.0 } else { weight[*i] * f }
             )
             .sum::<f64>()
             / total_weight
-- 
2.43.0


From 3d97b87c296935fb06f6bb4e453b07197b2a7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 13/30] fix: conditional variance of a sparse feature counts
 the zeros of its label only

---
 src/sample/feature_struct.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index ca5cfb3..60b3770 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -496,14 +496,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i],
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..],
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From cf59481af9de88d49d3752208f85ae9a13698158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 14/30] fix: split renumbers the rows of sparse features

---
 src/sample/sample_struct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..a244643 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -578,12 +578,12 @@ impl Sample {
 
         for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
             let (x, y) = self.at(ii);
-            test.append(i, x, y);
+            test.append(i - start, x, y);
         }
 
         for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(i - test_size, x, y);
         }
 
         (train, test)
-- 
2.43.0


From a243d713e6c4d17357e2fbd7ee82fd8744136bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 15/30] fix: cross validation stops when every example has been
 tested

---
 src/research/cross_validation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..15d530a 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -157,6 +157,11 @@ impl Iterator for CrossValidation<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_fold >= self.n_folds { return None; }
 
+        // No example is left for this fold.
+        let sample_size = self.sample.shape().0;
+        let test_size = sample_size - self.train_size;
+        if self.current_fold * test_size >= sample_size { return None; }
+
         let output = self.fold_at(self.current_fold);
         self.current_fold += 1;
 
-- 
2.43.0


From 23dddfc61cc07b21109002bfed3f26b6afc57129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 16/30] fix: BadBaseLearnerBuilder accepts nu = n_sample as
 documented

---
 src/weak_learner/bad_learner/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/bad_learner/builder.rs b/src/weak_learner/bad_learner/builder.rs
index e445a02..fe5d937 100644
--- a/src/weak_learner/bad_learner/builder.rs
+++ b/src/weak_learner/bad_learner/builder.rs
@@ -43,7 +43,7 @@ impl BadBaseLearnerBuilder {
     /// By default, it is set as `DEFAULT_NU: f64 = 1f64.`
     pub fn nu(mut self, nu: f64) -> Self {
         assert!(
-            (1f64..self.n_sample as f64).contains(&nu),
+            (1f64..=self.n_sample as f64).contains(&nu),
             "The capping parameter must be in `[1, n_sample]`"
         );
         self.nu = nu;
-- 
2.43.0


From e4ed317eae4e12435dfa157a9b6fd78ad0544b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 17/30] fix: scalar output of a network is the confidence to be
 +1

---
 src/common/task.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
-- 
2.43.0


From 461167c08a055bd537e5e0932fbc764f6b91fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 18/30] fix: log density of a product of Gaussians

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 5bc787f056c8004d8f2da5187c68297dcef9ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 19/30] fix: derivative of the sigmoid

---
 src/weak_learner/neural_network/activation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..3732ecd 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -85,7 +85,7 @@ fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
     x.iter()
         .map(|xi| {
             let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
+            eta * e / (1.0 + e).powi(2)
         })
         .collect()
 }
-- 
2.43.0


From e4bda46efb4470b43c4e4bce7e89ca5d9d91a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 20/30] fix: CERLPBoost reports the capping ratio in percent

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..aa5bc6e 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
 
     fn info(&self) -> Option<Vec<(&str, String)>> {
         let (n_sample, n_feature) = self.sample.shape();
-        let ratio = self.nu / n_sample as f64;
+        let ratio = self.nu * 100f64 / n_sample as f64;
         let nu = utils::format_unit(self.nu);
         let fw = self.frank_wolfe.current_type();
         let info = Vec::from([
-- 
2.43.0


From 97cd4d5fd2ade38703a1fe6fb2c98f87a666997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 21/30] fix: line search maximizes the objective along the
 segment

---
 src/common/frank_wolfe.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..037d1a1 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -193,6 +193,9 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
+        if hypotheses.len() == 1 { return vec![1.0]; }
+
+
         // base: w
         // dir:  e_h - w
         let base = weights.clone();
@@ -215,8 +218,11 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
@@ -224,7 +230,7 @@ impl FrankWolfe {
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +255,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
-- 
2.43.0


From 852b6b9fa5d90bbd9b787606eb7beea1848ea9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 22/30] fix: pairwise step maximizes the objective along the
 segment

---
 src/common/frank_wolfe.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 037d1a1..ec47705 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -363,17 +363,17 @@ impl FrankWolfe {
                 .collect::<Vec<_>>();
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins.into_iter(),
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
             // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
-                weights[position_of_worst_one] = 0.0;
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
+                weights[position_of_local_best_one] += max_stepsize;
+                weights[position_of_worst_one] -= max_stepsize;
                 return weights;
             }
 
@@ -393,9 +393,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From fe0035a613ac29e284dbd4bec53a5b34b8df8065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 23/30] fix: pairwise step selects the local atoms among the
 active hypotheses

---
 src/common/frank_wolfe.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index ec47705..a61a526 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -285,10 +285,12 @@ impl FrankWolfe {
         // Find a hypothesis that has a smallest edge.
         let mut worst_edge = 2.0;
         let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
+        // The newly attained hypothesis is the global FW atom.
+        let global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one],
+        );
         let mut position_of_worst_one = hypotheses.len();
         let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -301,31 +303,17 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
-                if edge > global_best_edge {
-                    global_best_edge = edge;
-                    position_of_global_best_one = j;
-                }
-
-
                 if edge < worst_edge {
                     worst_edge = edge;
                     position_of_worst_one = j;
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
-
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
         );
-- 
2.43.0


From 0b8c17fb305e9fb07ebc264d4411729be1654b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 24/30] fix: from_csv rejects rows with missing or extra
 columns

---
 src/sample/sample_struct.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index a244643..dc06e97 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -113,6 +113,17 @@ impl Sample {
                 continue;
             }
 
+            let n_column = line.split(',').count();
+            if n_column != features.len() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!(
+                        "Expected {} columns, got {n_column} in Line {i}",
+                        features.len(),
+                    ),
+                ));
+            }
+
             line.split(',')
                 .map(|x| x.trim().parse::<f64>().unwrap())
                 .enumerate()
-- 
2.43.0


From 95facac90a62ad88747cbdbd6bd47a9faa98f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 25/30] fix: Gini split survives labels whose remaining weight
 is rounded away

---
 src/weak_learner/decision_tree/criterion.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..cc748c2 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -285,12 +285,13 @@ fn split_by_gini(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
             right_weight_sum -= w;
 
-
-            if *entry <= 0f64 { right_weight.remove(&y); }
+            // Rounding errors may have removed the label already.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0


From a1e83bb20f9ed1602bfaea4255c31265294e4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 26/30] fix: binning a feature succeeds at every scale

---
 src/weak_learner/decision_tree/bin.rs   | 37 ++++++++-----------------
 src/weak_learner/regression_tree/bin.rs | 37 ++++++++-----------------
 2 files changed, 24 insertions(+), 50 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..0e47777 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -19,7 +19,6 @@ use crate::sample::{
 const EPS: f64 = 0.001;
 /// A tolerance parameter for numerical error.
 /// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -66,6 +65,8 @@ impl Bins {
         bins.0.first_mut().unwrap().0.start = f64::MIN;
         // The `end` of the right-most bin should be `f64::MAX`.
         bins.0.last_mut().unwrap().0.end = f64::MAX;
+        // Neighbouring edges can coincide numerically.
+        bins.0.retain(|bin| !bin.0.is_empty());
 
         bins
     }
@@ -121,21 +122,14 @@ impl Bins {
 
         let mut bins = Vec::with_capacity(n_bin);
 
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        // Compute the edges from their positions
+        // so that the numerical error does not accumulate.
+        for k in 0..n_bin {
+            let left = min + k as f64 * intercept;
+            let right = min + (k + 1) as f64 * intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
@@ -175,21 +169,14 @@ impl Bins {
 
         let mut bins = Vec::with_capacity(n_bin);
 
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        // Compute the edges from their positions
+        // so that the numerical error does not accumulate.
+        for k in 0..n_bin {
+            let left = min + k as f64 * intercept;
+            let right = min + (k + 1) as f64 * intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..aa671e7 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -15,7 +15,6 @@ use crate::sample::{
 const EPS: f64 = 0.001;
 /// A tolerance parameter for numerical error.
 /// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -66,6 +65,8 @@ impl Bins {
         bins.0.first_mut().unwrap().0.start = f64::MIN;
         // The `end` of the right-most bin should be `f64::MAX`.
         bins.0.last_mut().unwrap().0.end = f64::MAX;
+        // Neighbouring edges can coincide numerically.
+        bins.0.retain(|bin| !bin.0.is_empty());
 
         bins
     }
@@ -121,21 +122,14 @@ impl Bins {
 
         let mut bins = Vec::with_capacity(n_bin);
 
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        // Compute the edges from their positions
+        // so that the numerical error does not accumulate.
+        for k in 0..n_bin {
+            let left = min + k as f64 * intercept;
+            let right = min + (k + 1) as f64 * intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
@@ -175,21 +169,14 @@ impl Bins {
 
         let mut bins = Vec::with_capacity(n_bin);
 
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        // Compute the edges from their positions
+        // so that the numerical error does not accumulate.
+        for k in 0..n_bin {
+            let left = min + k as f64 * intercept;
+            let right = min + (k + 1) as f64 * intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
-- 
2.43.0


From a3a175148302eadf5bcbe9be4130fe395f4cc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 27/30] fix: regression tree splits nodes whose gradients sum
 to zero

---
 src/weak_learner/regression_tree/bin.rs           | 15 ++++++++-------
 .../regression_tree/regression_tree_algorithm.rs  |  7 +++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index aa671e7..bdf93e8 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -248,13 +248,14 @@ impl Bins {
         // The left-most bin might have zero weight.
         // In this case, find the next non-zero weight bin and merge.
         if prev_grad == 0.0 && prev_hess == 0.0 {
-            let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
-
-            let start = prev_bin.0.start;
-            let end = next_bin.0.end;
-            prev_bin = Bin::new(start..end);
-            prev_grad = next_grad;
-            prev_hess = next_hess;
+            // All bins might be zero since gradients can cancel out.
+            if let Some((next_bin, (next_grad, next_hess))) = iter.next() {
+                let start = prev_bin.0.start;
+                let end = next_bin.0.end;
+                prev_bin = Bin::new(start..end);
+                prev_grad = next_grad;
+                prev_hess = next_hess;
+            }
         }
 
         let mut bin_and_gh = Vec::new();
diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..a94baf5 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,11 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If there is nothing left to fit, construct a leaf node.
+        // Note that gradients can sum up to zero
+        // even if a split improves the predictions.
+        let is_fitted = indices.iter().all(|&i| gradient[i] == 0.0);
+        if is_fitted || max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
-- 
2.43.0


From 9b0129965d01c1b971748bf437f24801ce180d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 28/30] fix: the column of a dummy sample has as many rows as
 the sample

---
 src/sample/sample_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index dc06e97..30d17c4 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -40,7 +40,9 @@ impl Sample {
         let mut target = vec![1f64; n_sample];
         target[half..].iter_mut()
             .for_each(|y| { *y = -1f64; });
-        let features = vec![Feature::new_sparse("dummy")];
+        let mut feature = Feature::new_sparse("dummy");
+        feature.set_n_sample(n_sample);
+        let features = vec![feature];
         Self {
             name_to_index: HashMap::from([("dummy".to_string(), 0)]),
             features,
-- 
2.43.0


From b225e80d0c1527c0de34236acf41ff99ab2c2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 29/30] fix: a leaf whose labels weigh the same depends on the
 random order of a hash map

---
 src/weak_learner/decision_tree/decision_tree_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/decision_tree/decision_tree_algorithm.rs b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
index de1455c..0532501 100644
--- a/src/weak_learner/decision_tree/decision_tree_algorithm.rs
+++ b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
@@ -19,7 +19,7 @@ use super::{
 
 use std::fmt;
 use std::rc::Rc;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 
 /// The Decision Tree algorithm.  
@@ -234,7 +234,7 @@ fn confidence_and_loss(sample: &Sample, dist: &[f64], indices: &[usize])
 
     assert_ne!(indices.len(), 0);
     let target = sample.target();
-    let mut counter: HashMap<i64, f64> = HashMap::new();
+    let mut counter: BTreeMap<i64, f64> = BTreeMap::new();
 
     for &i in indices {
         let l = target[i] as i64;
-- 
2.43.0


From b60729248cbd21e3387cd164b2f8051d16d38459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 30/30] fix: capped simplex check tolerates the rounding of the
 solver

---
 src/common/checker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/checker.rs b/src/common/checker.rs
index 9e88e6a..83c851e 100644
--- a/src/common/checker.rs
+++ b/src/common/checker.rs
@@ -59,7 +59,8 @@ pub(crate) fn check_capped_simplex_condition(
 
     let ub = 1f64 / nu;
     assert!(
-        slice.iter().all(|s| (0f64..=ub).contains(s)),
+        slice.iter()
+            .all(|s| (-SIMPLEX_TOLERANCE..=ub+SIMPLEX_TOLERANCE).contains(s)),
         "capping constraint is violated!"
     );
 }
-- 
2.43.0

