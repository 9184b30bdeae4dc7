From 00be5299acc4e89c0577ebb1371aeeba292be09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 01/34] fix: evaluate the cloglog natural parameter without
 overflow

nat_param() overflowed to infinity for linear predictors above ~6.6 (and to
-infinity once exp(x) underflowed), which made the log-likelihood NaN for
observations with y = 1. The fit then treated the NaN region as a wall and
returned Ok at a non-optimal point.
---
 src/response/logistic.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index d96904d..80154f1 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -145,11 +145,28 @@ pub mod link {
     }
     impl Transform for Cloglog {
         fn nat_param<F: Float>(lin_pred: Array1<F>) -> Array1<F> {
-            lin_pred.mapv(|x| num_traits::Float::ln(num_traits::Float::exp(x).exp_m1()))
+            // ln(exp(e^x) - 1) = e^x + ln(1 - exp(-e^x)), where the latter form doesn't overflow
+            // once e^x is larger than the log of the largest float.
+            lin_pred.mapv(|x| {
+                let exp_x = num_traits::Float::exp(x);
+                if exp_x < F::epsilon() {
+                    // Avoid the underflow of e^x; the next term in the expansion is e^x / 2.
+                    x
+                } else {
+                    exp_x + num_traits::Float::ln(-F::exp_m1(-exp_x))
+                }
+            })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
-            let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-            &neg_exp_lin / &neg_exp_lin.mapv(F::exp_m1)
+            lin_pred.mapv(|x| {
+                let exp_x = num_traits::Float::exp(x);
+                if exp_x < F::epsilon() {
+                    // The limit as e^x goes to zero
+                    F::one()
+                } else {
+                    -exp_x / F::exp_m1(-exp_x)
+                }
+            })
         }
     }
 }
-- 
2.43.0


From c0d34fb7b8dfdea9705ecc4366a47d166963c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 02/34] fix: evaluate the binomial log-partition without
 overflow

exp(nat_par) overflowed for predictors above ~709 (88 in f32), making the
log-likelihood infinite or NaN.
---
 src/response/binomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..94d12a5 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -46,7 +46,9 @@ impl<const N: BinDom> Glm for Binomial<N> {
     /// that for logistic regression, but it is adjusted for the maximum value.
     fn log_partition<F: Float>(nat_par: F) -> F {
         let n: F = F::from(N).unwrap();
-        n * num_traits::Float::exp(nat_par).ln_1p()
+        // ln(1 + e^x) = max(x, 0) + ln(1 + e^-|x|), where the latter form doesn't overflow.
+        let exp_neg_abs = num_traits::Float::exp(-num_traits::Float::abs(nat_par));
+        n * (num_traits::Float::max(nat_par, F::zero()) + exp_neg_abs.ln_1p())
     }
 
     fn variance<F: Float>(mean: F) -> F {
-- 
2.43.0


From 403d576284f680496e645e3922078e32850bd803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 03/34] fix: ignore observations with zero weight even where
 they are not finite

A row with frequency (or variance weight) zero contributed 0 * NaN to the
likelihood and the normal equations whenever its linear predictor left the
domain of the link, so the fit stopped at a non-optimal point, and loo_exact()
could be limited by the very row it leaves out.
---
 src/data.rs | 27 +++++++++++++++++++++++++--
 src/fit.rs  |  3 +++
 src/irls.rs |  2 ++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 82f7c0c..226abf3 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -98,7 +98,7 @@ where
     pub(crate) fn apply_freq_weights(&self, rhs: Array1<F>) -> Array1<F> {
         match &self.freqs {
             None => rhs,
-            Some(f) => f * rhs,
+            Some(f) => zero_where_zero(rhs, f) * f,
         }
     }
 
@@ -110,10 +110,23 @@ where
     pub(crate) fn apply_var_weights(&self, rhs: Array1<F>) -> Array1<F> {
         match &self.weights {
             None => rhs,
-            Some(w) => w * rhs,
+            Some(w) => zero_where_zero(rhs, w) * w,
         }
     }
 
+    /// Zero the entries of observations that carry no weight. These should have no influence on
+    /// the fit, but a non-finite value (e.g. because such an observation is outside of the domain
+    /// of the link function) would otherwise survive multiplication by the zero weight.
+    pub(crate) fn zero_unweighted(&self, mut rhs: Array1<F>) -> Array1<F> {
+        if let Some(f) = &self.freqs {
+            rhs = zero_where_zero(rhs, f);
+        }
+        if let Some(w) = &self.weights {
+            rhs = zero_where_zero(rhs, w);
+        }
+        rhs
+    }
+
     /// Sum over the input array using the frequencies (and not the variance weights) as weights.
     /// This is a useful operation because the frequency weights fundamentally impact the sum
     /// operator and nothing else.
@@ -261,6 +274,16 @@ where
     }
 }
 
+/// Set the entries of the array to zero wherever the corresponding weight is zero.
+fn zero_where_zero<F: Float>(mut arr: Array1<F>, weights: &Array1<F>) -> Array1<F> {
+    arr.zip_mut_with(weights, |a, &w| {
+        if w.is_zero() {
+            *a = F::zero()
+        }
+    });
+    arr
+}
+
 /// Stores the per-column means and sample standard deviations learned from a design matrix, and
 /// can apply the same transformation to new data.
 ///
diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..daafbba 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -323,6 +323,7 @@ where
     fn fisher_data_std(&self, params: &Array1<F>) -> Array2<F> {
         let lin_pred: Array1<F> = self.data.linear_predictor_std(params);
         let adj_var: Array1<F> = M::adjusted_variance_diag(&lin_pred);
+        let adj_var = self.data.zero_unweighted(adj_var);
         (self.data.x_conj() * &adj_var).dot(&self.data.x)
     }
 
@@ -390,6 +391,7 @@ where
         let resid_resp = self.resid_resp();
         let omh = -self.leverage()? + F::one();
         let resid_adj = M::Link::adjust_errors(resid_resp, &self.x_lin_pred) / omh;
+        let resid_adj = self.data.zero_unweighted(resid_adj);
         let xte = self.data.x_conj_ext() * resid_adj;
         let fisher_inv = self.fisher_inv()?;
         let delta_b = xte.t().dot(fisher_inv);
@@ -864,6 +866,7 @@ where
         let mu: Array1<F> = M::mean(&lin_pred);
         let resid_response = &self.data.y - mu;
         let resid_working = M::Link::adjust_errors(resid_response, &lin_pred);
+        let resid_working = self.data.zero_unweighted(resid_working);
         let score_int = self.data.x_conj().dot(&resid_working);
         let score_int_reg = self.reg.as_ref().gradient(score_int, &params_std);
         self.data.inverse_transform_score(score_int_reg)
diff --git a/src/irls.rs b/src/irls.rs
index e036633..d3699b7 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -129,6 +129,8 @@ where
         // the link function. With the canonical link function, this is a no-op.
         let (errors, var_diag) =
             M::Link::adjust_errors_variance(errors, var_diag, &linear_predictor);
+        let errors = self.data.zero_unweighted(errors);
+        let var_diag = self.data.zero_unweighted(var_diag);
 
         // condition after the adjustment in case the derivatives are zero. Or
         // should the Hessian itself be conditioned?
-- 
2.43.0


From 972aaf3108f9e8dadc0121776ed1478d8399844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 04/34] fix: don't return Ok from a starting point outside the
 model's domain

A NaN likelihood at the initial guess compared as not worse than any step, so
the iteration stopped immediately and the invalid guess was returned as the
fit. Treat it as -infinity so that any valid step is an improvement, and
return an error if no valid point is found.
---
 src/glm.rs  |  9 ++++++++-
 src/irls.rs | 19 +++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 335f869..2ef9c58 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -6,7 +6,7 @@ use crate::irls::IrlsStep;
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     fit::{Fit, options::FitOptions},
     irls::Irls,
     model::Model,
@@ -181,6 +181,13 @@ pub trait Glm: Sized {
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
+        // Don't report a point outside of the domain of the model as a fit result.
+        if !optimum.like.is_finite() {
+            return Err(RegressionError::BadInput(
+                "no parameters with a finite likelihood found from the initial guess".to_string(),
+            ));
+        }
+
         Ok(Fit::new(&model.data, optimum, irls))
     }
 }
diff --git a/src/irls.rs b/src/irls.rs
index d3699b7..e07e061 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -57,7 +57,7 @@ where
     pub(crate) fn new(model: &'a Model<M, F>, initial: Array1<F>, options: FitOptions<F>) -> Self {
         let data = &model.data;
         let reg = get_reg(&options, data.x.ncols(), data.has_intercept);
-        let initial_like_data: F = M::log_like(data, &initial);
+        let initial_like_data: F = log_like::<M, F>(data, &initial);
         Self {
             model: PhantomData,
             data,
@@ -201,7 +201,7 @@ where
         };
 
         // This is the raw, unregularized and unaugmented
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = log_like::<M, F>(self.data, &next_guess);
 
         // The augmented likelihood to maximize may not be the same as the regularized model
         // likelihood.
@@ -261,7 +261,7 @@ where
             // the best model likelihood in the step search.
             // NOTE: It's possible there are some edge cases with an inconsistency, given that the
             // checks above use the augmented likelihood and this checks directly.
-            M::log_like(self.data, &b) + self.reg.likelihood(&b) // unaugmented
+            log_like::<M, F>(self.data, &b) + self.reg.likelihood(&b) // unaugmented
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
@@ -273,12 +273,23 @@ where
 
         // If the step multiplier is not zero, it found a better guess
         let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = log_like::<M, F>(self.data, &next_guess);
 
         Some(self.step_with(next_guess, next_like_data))
     }
 }
 
+/// The data log-likelihood, where parameters outside of the model's domain (for which it is not a
+/// number) have no likelihood at all. This allows such points to compare as worse than any other.
+fn log_like<M: Glm, F: Float>(data: &Dataset<F>, regressors: &Array1<F>) -> F {
+    let like = M::log_like(data, regressors);
+    if like.is_nan() {
+        F::neg_infinity()
+    } else {
+        like
+    }
+}
+
 fn small_delta<F>(new: F, old: F, tol: F) -> bool
 where
     F: Float,
-- 
2.43.0


From a1fa1cbf8785817aeb0d08a5278e29a275efa69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 05/34] fix: begin at zero when the default initial guess is
 not finite

When every response is at the edge of the family's domain (all true, all zero
counts) the link function diverges and the fit returned Ok with infinite
coefficients, even with regularization.
---
 src/glm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 2ef9c58..24740d0 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -152,6 +152,10 @@ pub trait Glm: Sized {
                 eprintln!("{err}");
                 Array1::<F>::zeros(data.x.ncols())
             });
+        // The link function can diverge if all responses are at the edge of the domain.
+        if !init_guess.iter().all(|b| b.is_finite()) {
+            return Array1::<F>::zeros(data.x.ncols());
+        }
         init_guess
     }
 
-- 
2.43.0


From 944ab6c0d85f376e54973d89af6ee051ba87a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 06/34] fix: reject an initial guess with the wrong number of
 parameters

It caused a panic in the design-matrix product.
---
 src/glm.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 24740d0..71c52f2 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -168,6 +168,16 @@ pub trait Glm: Sized {
         F: Float,
         Self: Sized,
     {
+        let n_par = model.data.x.ncols();
+        if let Some(guess) = &options.init_guess
+            && guess.len() != n_par
+        {
+            return Err(RegressionError::BadInput(format!(
+                "initial guess has {} entries but the model has {n_par} parameters",
+                guess.len()
+            )));
+        }
+
         let initial: Array1<F> = options
             .init_guess
             .clone()
-- 
2.43.0


From 2902f7c188ba4eaffa00e9afbd491ddb42c3c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 07/34] fix: report the history of a MaxIter error in external
 coordinates

The successful-fit history is mapped back from the internal standardized
coordinates, but the one carried by the error was not.
---
 src/glm.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 71c52f2..276ccaf 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -192,6 +192,21 @@ pub trait Glm: Sized {
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
             iter.max_by(|a, b| a.like.total_cmp(&b.like))
+        })
+        .map_err(|err| match err {
+            // The IRLS history is in the internal parameter space, so it needs to be mapped to the
+            // external one, as Fit does for its history.
+            RegressionError::MaxIter { n_iter, history } => RegressionError::MaxIter {
+                n_iter,
+                history: history
+                    .into_iter()
+                    .map(|IrlsStep { guess, like }| IrlsStep {
+                        guess: model.data.inverse_transform_beta(guess),
+                        like,
+                    })
+                    .collect(),
+            },
+            err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
-- 
2.43.0


From f127a97f9740904f10e5718cce7de6794215d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 08/34] fix: pvalue_exact() on models without an intercept

The reduced models were marked as having an intercept, so that under
regularization their first coefficient was not penalized.
---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index daafbba..0b4f97f 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1024,7 +1024,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 83c120ac877510852fbc1141b680f665484d8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 09/34] fix: allow models without any parameters

Neither a feature nor an intercept is left when pvalue_exact() drops the only
parameter, and the empty linear system made it (and a direct fit of such a
model) fail with a linear-algebra error, and null_like() panic.
---
 src/fit.rs  | 4 +++-
 src/glm.rs  | 3 +++
 src/irls.rs | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 0b4f97f..ea90ce1 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -596,7 +596,9 @@ where
                     let null_like_total = self.data.sum_weights() * null_like_one;
                     let null_params: Array1<F> = {
                         let mut par = Array1::<F>::zeros(self.n_par);
-                        par[0] = intercept;
+                        if self.data.has_intercept {
+                            par[0] = intercept;
+                        }
                         par
                     };
                     (null_like_total, null_params)
diff --git a/src/glm.rs b/src/glm.rs
index 276ccaf..1aa5fdf 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -135,6 +135,9 @@ pub trait Glm: Sized {
         F: Float,
         ArrayRef2<F>: SolveH<F>,
     {
+        if data.x.ncols() == 0 {
+            return Array1::<F>::zeros(0);
+        }
         let y_bar: F = data.y.mean().unwrap_or_else(F::zero);
         let mu_y: Array1<F> = data.y.mapv(|y| F::half() * (y + y_bar));
         let link_y = mu_y.mapv(Self::Link::func);
diff --git a/src/irls.rs b/src/irls.rs
index e07e061..52a2ba1 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -193,6 +193,11 @@ where
         if self.done {
             return None;
         }
+        // There is nothing to iterate over without any parameters. The linear system would be
+        // rejected as invalid.
+        if self.guess.is_empty() {
+            return None;
+        }
 
         let (irls_mat, irls_vec) = self.irls_mat_vec();
         let next_guess: Array1<F> = match self.reg.next_guess(&self.guess, irls_vec, irls_mat) {
-- 
2.43.0


From 4e1828bfa6d87ecd8c671b19b126ebc834dc34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 10/34] fix: don't panic when the null model with an offset
 cannot be fit

The null fit inherited max_iter from the model fit, so a fit started from a
good guess under a low limit made null_like() and every statistic based on it
panic. Use at least the default limit, and report NaN if the fit fails
nonetheless.
---
 src/fit.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index ea90ce1..52ac625 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -634,10 +634,15 @@ where
                             .fit_options()
                             // There shouldn't be too much trouble fitting this
                             // single-parameter fit, but there shouldn't be harm in
-                            // using the same maximum as in the original model.
-                            .max_iter(self.options.max_iter)
-                            .fit()
-                            .expect("Could not fit null model!");
+                            // using the same maximum as in the original model, unless it is so
+                            // low that it was only reachable with a good initial guess.
+                            .max_iter(self.options.max_iter.max(FitOptions::<F>::default().max_iter))
+                            .fit();
+                        let Ok(null_fit) = null_fit else {
+                            // The null likelihood is not available.
+                            let nan = F::nan();
+                            return (nan, Array1::from_elem(self.n_par, nan));
+                        };
                         let null_params: Array1<F> = {
                             let mut par = Array1::<F>::zeros(self.n_par);
                             // there is only one parameter in this fit. It should be the same as
-- 
2.43.0


From 06869b22c1a5cd1097acf1491f12bc9fa38a8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 11/34] fix: reject weights of the wrong length

They made build() panic, or were silently broadcast if of length one.
---
 src/model.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..b7c6751 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -203,6 +203,22 @@ where
             ));
         }
 
+        // Likewise for the weights
+        if let Some(weights) = &self.var_weights
+            && n_data != weights.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Variance weights must have same dimension as observations".to_string(),
+            ));
+        }
+        if let Some(freqs) = &self.freq_weights
+            && n_data != freqs.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Frequency weights must have same dimension as observations".to_string(),
+            ));
+        }
+
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
             // The regression can find a solution if n_data == ncols, but there will be
-- 
2.43.0


From 5204c2a55729c3089f685ca0c970dbb3589a9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 12/34] fix: don't panic when a single observation carries all
 the weight

The effective sample size is then not above one and build() hit an assertion.
This case also occurs within loo_exact().
---
 src/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 226abf3..adea620 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -326,7 +326,8 @@ where
     ///
     /// For empty data (0 rows) the mean defaults to 0 and the std to 1.
     /// For a single row the mean is that row's value and the std defaults to 1
-    /// (sample std is undefined with one observation).
+    /// (sample std is undefined with one observation). The same goes for data where all of the
+    /// weight is effectively on a single observation.
     fn from_dataset(data: &Dataset<F>) -> Self {
         let x = &data.x;
         let (n, p) = (x.nrows(), x.ncols());
@@ -342,10 +343,9 @@ where
             x_w.sum_axis(Axis(0)) / sum_weights
         };
 
-        let vars: Array1<F> = if n <= 1 {
+        let vars: Array1<F> = if n <= 1 || !(n_eff > F::one()) {
             Array1::<F>::ones(p)
         } else {
-            assert!(n_eff > F::one());
             let dx = x - means.clone();
             let dx2: Array2<F> = dx.mapv_into(|d| d * d);
             let dx2_w = weights * dx2;
-- 
2.43.0


From c3ad01db5b28c227dc0a11667787b967a7d81293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 13/34] fix: reject binomial responses above the number of
 trials

They were accepted and fit to meaningless likelihoods.
---
 src/response/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index 94d12a5..aa61698 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,9 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From 55d83ce840d59cf04a84b86d784650990c6463f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 14/34] fix: reject non-finite responses

---
 src/response/exponential.rs      | 4 ++--
 src/response/gamma.rs            | 4 ++--
 src/response/inverse_gaussian.rs | 4 ++--
 src/response/linear.rs           | 4 +++-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..d7bc351 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +41,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..263af0f 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +40,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..327265b 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +35,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/linear.rs b/src/response/linear.rs
index bf8ca2c..71b259a 100644
--- a/src/response/linear.rs
+++ b/src/response/linear.rs
@@ -29,7 +29,9 @@ where
     L: Link<Linear<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        F::from(self)
+            .filter(|y: &F| y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
-- 
2.43.0


From 3867256f5f38b662ec97cb1d9658c80cb44d9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 15/34] fix: recognize constant columns when standardizing

---
 src/data.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index adea620..25c7cdc 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -336,12 +336,26 @@ where
         // Change the shape to broadcast to Array2 weighting
         let weights: Array2<F> = weights.insert_axis(Axis(1));
         let n_eff = data.n_eff();
-        let means = if n == 0 {
+        let mut means = if n == 0 {
             Array1::<F>::zeros(p)
         } else {
             let x_w: Array2<F> = &weights * x;
             x_w.sum_axis(Axis(0)) / sum_weights
         };
+        // The mean of a constant column is exactly that constant. If it is rounded then the column
+        // would appear to have a tiny but non-zero variance.
+        for (mean, col) in means.iter_mut().zip(x.columns()) {
+            let mut included = col
+                .iter()
+                .zip(&weights)
+                .filter(|&(_, w)| *w != F::zero())
+                .map(|(x, _)| *x);
+            if let Some(first) = included.next()
+                && included.all(|x| x == first)
+            {
+                *mean = first;
+            }
+        }
 
         let vars: Array1<F> = if n <= 1 || !(n_eff > F::one()) {
             Array1::<F>::ones(p)
-- 
2.43.0


From 8bdc1a6cd1d3ca9c948a00355309af214b7255d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 16/34] fix: don't include the regularization in r_sq()

---
 src/fit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 52ac625..2513f85 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -981,7 +981,8 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
+        // The regularization is included in lr_test(), but is not part of either deviance.
+        let lr = self.lr_test() - F::two() * self.reg.likelihood(&self.result_std);
         lr / (lr + self.deviance())
     }
 
-- 
2.43.0


From fe18a7e6ac5914f9019dab2ec093f7c9df3363e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 17/34] fix: don't let rounding make deviance terms negative

---
 src/fit.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 2513f85..464c5e2 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -195,7 +195,15 @@ where
         self.dev_terms.get_or_init(|| {
             let ll_terms: Array1<F> = M::log_like_terms(self.data, &self.result_std);
             let ll_sat: Array1<F> = self.data.y.mapv(M::log_like_sat);
-            let terms = (ll_sat - ll_terms) * F::two();
+            // The saturated likelihood is the largest possible, but rounding can make the difference
+            // slightly negative where the fit is (nearly) exact.
+            let terms = (ll_sat - ll_terms).mapv(|d| {
+                if d < F::zero() {
+                    F::zero()
+                } else {
+                    F::two() * d
+                }
+            });
             self.data.apply_var_weights(terms)
         })
     }
@@ -636,7 +644,11 @@ where
                             // single-parameter fit, but there shouldn't be harm in
                             // using the same maximum as in the original model, unless it is so
                             // low that it was only reachable with a good initial guess.
-                            .max_iter(self.options.max_iter.max(FitOptions::<F>::default().max_iter))
+                            .max_iter(
+                                self.options
+                                    .max_iter
+                                    .max(FitOptions::<F>::default().max_iter),
+                            )
                             .fit();
                         let Ok(null_fit) = null_fit else {
                             // The null likelihood is not available.
-- 
2.43.0


From 8e747cfce681d9b62812ecdc12abc36584fc40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 18/34] fix: don't panic in the p-values of saturated fits

---
 src/fit.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 464c5e2..3beea56 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1125,10 +1125,14 @@ where
             DispersionType::FreeDispersion => {
                 use statrs::distribution::StudentsT;
                 let df = self.ndf().to_f64().unwrap();
-                let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
-                z.mapv(|zi| {
-                    let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
-                    F::from(2.0 * t_dist.sf(abs_z)).unwrap()
+                // There is no reference distribution if there are no degrees of freedom.
+                let t_dist = StudentsT::new(0.0, 1.0, df).ok();
+                z.mapv(|zi| match &t_dist {
+                    Some(t_dist) if !zi.is_nan() => {
+                        let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
+                        F::from(2.0 * t_dist.sf(abs_z)).unwrap()
+                    }
+                    _ => F::nan(),
                 })
             }
         };
@@ -1165,8 +1169,11 @@ where
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
                     let f_stat = delta_d / phi_full;
-                    let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
-                    f_dist.sf(f_stat.to_f64().unwrap())
+                    // There is no reference distribution if there are no degrees of freedom.
+                    match FisherSnedecor::new(1.0, ndf_f64) {
+                        Ok(f_dist) if !f_stat.is_nan() => f_dist.sf(f_stat.to_f64().unwrap()),
+                        _ => f64::NAN,
+                    }
                 }
             };
             pvals[k] = F::from(p).unwrap();
-- 
2.43.0


From f610864f3d8ca9ba4148e63a561b70e3d53198ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 19/34] fix: keep the precision of small p-values in
 pvalue_exact()

---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 3beea56..15e9887 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1164,7 +1164,7 @@ where
                 DispersionType::NoDispersion => {
                     use statrs::distribution::ChiSquared;
                     let chi2 = ChiSquared::new(1.0).unwrap();
-                    1.0 - chi2.cdf(delta_d.to_f64().unwrap())
+                    chi2.sf(delta_d.to_f64().unwrap())
                 }
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
-- 
2.43.0


From 31352e72c3edf74687dc146a3a46f02a3fa2caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 20/34] fix: keep the precision of quantile residuals in the
 upper tail

---
 src/fit.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 15e9887..b3d7bbc 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1227,10 +1227,17 @@ where
             .and(&phi_i)
             .map_collect(|y, &mu, &phi_i| {
                 let dist = M::get_distribution(mu, phi_i);
+                let y = y.to_f64().unwrap();
                 // This variable should be standard-uniform distributed under data following the model
                 // assumption
-                let f = dist.cdf(y.to_f64().unwrap());
-                F::from_f64(std_norm.inverse_cdf(f)).unwrap()
+                let f = dist.cdf(y);
+                // Use the survival function in the upper half so that the tail isn't rounded to 1.
+                let q = if f > 0.5 {
+                    -std_norm.inverse_cdf(dist.sf(y))
+                } else {
+                    std_norm.inverse_cdf(f)
+                };
+                F::from_f64(q).unwrap()
             })
     }
 }
-- 
2.43.0


From 76b19ec11496a03ff8a95a4af502d0c2a0cfdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 21/34] fix: don't return Ok with infinite fitted means

---
 src/glm.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 1aa5fdf..ab1aacb 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -214,9 +214,15 @@ pub trait Glm: Sized {
         .unwrap_or_else(|| irls.make_last_step());
 
         // Don't report a point outside of the domain of the model as a fit result.
-        if !optimum.like.is_finite() {
+        let mu = Self::mean(&model.data.linear_predictor_std(&optimum.guess));
+        let mu_finite = model
+            .data
+            .apply_total_weights(mu)
+            .iter()
+            .all(|mu| mu.is_finite());
+        if !optimum.like.is_finite() || !mu_finite {
             return Err(RegressionError::BadInput(
-                "no parameters with a finite likelihood found from the initial guess".to_string(),
+                "no parameters with a finite likelihood and means found from the initial guess".to_string(),
             ));
         }
 
-- 
2.43.0


From c49ab898ac1319b3df56f6cf3941e2402cd7f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 22/34] fix: keep ADMM iterations from diverging or leaving the
 domain

---
 src/irls.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index 52a2ba1..ba59b5c 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -222,6 +222,21 @@ where
         // L1/ElasticNet), precision tolerance checks don't matter and we should continue on with
         // the iteration.
         if !self.reg.terminate_ok(self.options.tol) {
+            // The objective may still get worse if the step overshoots, possibly so far that it
+            // leaves the domain of the model or diverges. The step is in an ascent direction of
+            // the augmented likelihood so it can be shortened until it is an improvement.
+            if next_like_obj.is_nan() || next_like_obj < last_like_obj {
+                let f_step = |x: F| {
+                    let b = &next_guess * x + &self.guess * (F::one() - x);
+                    log_like::<M, F>(self.data, &b) + self.reg.irls_like(&b)
+                };
+                let step_mult: F = step_scale(&f_step, F::epsilon());
+                if step_mult > F::zero() {
+                    let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
+                    let next_like_data = log_like::<M, F>(self.data, &next_guess);
+                    return Some(self.step_with(next_guess, next_like_data));
+                }
+            }
             return Some(self.step_with(next_guess, next_like_data));
         }
 
-- 
2.43.0


From dfced31b7604ba650c56bcc718c2233d3999e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 23/34] fix: don't accept an L1 fit that halts away from the
 best point found

---
 src/irls.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index ba59b5c..c69b0a2 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -92,6 +92,19 @@ where
         Ok(step)
     }
 
+    /// Returns true if the current guess is worse than the best one so far by more than can be
+    /// expected from the tolerance of ADMM.
+    fn is_astray(&self) -> bool {
+        let best = match self.history.iter().map(|s| s.like).reduce(F::max) {
+            Some(best) => best,
+            None => return false,
+        };
+        let like = self.last_like_data + self.reg.likelihood(&self.guess);
+        let n_obs = F::from(self.data.y.len()).unwrap();
+        let scale = n_obs + num_traits::Float::abs(best);
+        best - like > num_traits::Float::sqrt(self.options.tol) * scale
+    }
+
     /// Returns the (LHS, RHS) of the IRLS update matrix equation. This is a bit
     /// faster than computing the Fisher matrix and the Jacobian separately.
     /// The returned matrix and vector are not regularized.
@@ -240,6 +253,13 @@ where
             return Some(self.step_with(next_guess, next_like_data));
         }
 
+        // The iteration hasn't converged to the optimum if it's stuck at a point that is
+        // substantially worse than a previous one. This can only happen with ADMM, where an
+        // iteration that has gone astray can come to a halt within the floating-point precision.
+        if self.is_astray() {
+            return Some(self.step_with(next_guess, next_like_data));
+        }
+
         // If the next guess is literally equal to the last, then additional IRLS or step-halving
         // procedures won't get use anywhere further.
         // This should be true even under ADMM, given that it's converged per the previous check.
-- 
2.43.0


From 2ec066b92720bb8ee134dd02c86a0965226d1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 24/34] fix: make the step-halving tolerance relative to the
 step size

---
 src/irls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index c69b0a2..bb360e5 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -305,7 +305,11 @@ where
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
-        let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol);
+        // The tolerance is relative to the step, which can be arbitrarily large where the likelihood
+        // has nearly no curvature.
+        let step_size = num_traits::Float::sqrt((&next_guess - &self.guess).mapv(|d| d * d).sum());
+        let step_size = if step_size.is_finite() { F::max(step_size, F::one()) } else { F::one() };
+        let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol / step_size);
         if step_mult.is_zero() {
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
-- 
2.43.0


From 50fc26221fe6df7aadc6dc8ea72aecd6bbf75b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 25/34] fix: don't panic in quantile residuals at extreme means
 or dispersions

---
 src/fit.rs                  | 17 +++++++++++++++--
 src/response/exponential.rs |  4 ++--
 src/response/gamma.rs       |  6 ++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index b3d7bbc..e6f2996 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1226,16 +1226,29 @@ where
             .and(&mu)
             .and(&phi_i)
             .map_collect(|y, &mu, &phi_i| {
+                if mu.is_nan() || phi_i.is_nan() {
+                    // There is no distribution to compare to, e.g. without residual degrees of freedom.
+                    return F::nan();
+                }
                 let dist = M::get_distribution(mu, phi_i);
                 let y = y.to_f64().unwrap();
+                // Rounding can take the numerical CDF slightly outside of its range, and the quantile
+                // function doesn't accept that or NaN.
+                let quantile = |p: f64| {
+                    if p.is_nan() {
+                        p
+                    } else {
+                        std_norm.inverse_cdf(p.clamp(0., 1.))
+                    }
+                };
                 // This variable should be standard-uniform distributed under data following the model
                 // assumption
                 let f = dist.cdf(y);
                 // Use the survival function in the upper half so that the tail isn't rounded to 1.
                 let q = if f > 0.5 {
-                    -std_norm.inverse_cdf(dist.sf(y))
+                    -quantile(dist.sf(y))
                 } else {
-                    std_norm.inverse_cdf(f)
+                    quantile(f)
                 };
                 F::from_f64(q).unwrap()
             })
diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index d7bc351..51788ea 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -60,9 +60,9 @@ where
         // link function does not prevent them. Without complicating the return type, either with
         // dynamic dispatch or an enum between Exp and Dirac that would have to forward every
         // Distribution<f64> and ContinuousCDF<f64> calls, the simplest way to ensure μ > 0 is
-        // to clamp at the lowest positive value (~2e-308).
+        // to clamp at the lowest positive value (~2e-308). An overflowing mean is clamped likewise.
         // Exp::new(rate) where rate = 1/mu, since statrs parameterizes by rate (mean = 1/rate).
-        Exp::new(mu.max(f64::MIN_POSITIVE).recip()).unwrap()
+        Exp::new(mu.max(f64::MIN_POSITIVE).min(f64::MAX).recip()).unwrap()
     }
 }
 
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index 263af0f..b013caf 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -58,10 +58,12 @@ where
         // Clamp phi to be no lower than epsilon ~2e-16. This will avoid overflows for
         // overspecified models. f64::MAX_POSITIVE would probably be overkill and might lead to
         // infinite values.
-        let alpha = 1. / phi.max(f64::EPSILON);
+        let alpha = 1. / phi.clamp(f64::EPSILON, f64::MAX);
         // mu = alpha / beta
         let beta = alpha / mu;
-        let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
+        // Leave some room, since the CDF panics when the product of the rate and the response over- or
+        // underflows.
+        let beta = beta.clamp(1e-270, 1e270);
         GammaDist::new(alpha, beta).unwrap()
     }
 }
-- 
2.43.0


From cd1794e04890c64c7f99da16f76945e24ba5f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 26/34] fix: refit reduced models from the default start if the
 given one is infeasible

---
 src/fit.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index e6f2996..0cdc66a 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -7,7 +7,7 @@ use crate::response::Response;
 use crate::{
     Linear,
     data::{Dataset, one_pad},
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     glm::{DispersionType, Glm},
     irls::{Irls, IrlsStep},
     link::{Link, Transform},
@@ -461,7 +461,7 @@ where
                 options.init_guess = Some(loo_initial.row(i).to_owned());
                 options
             };
-            let fit_i = model_i.with_options(options).fit()?;
+            let fit_i = refit(&model_i, options)?;
             // The internal re-fit transforms back to the external scale.
             loo_result.row_mut(i).assign(&fit_i.result);
         }
@@ -1009,6 +1009,21 @@ where
     }
 }
 
+/// Fit a variation of a model from the starting point given in the options, or from the default one
+/// if that isn't in the domain of the varied model.
+fn refit<M: Glm, F: Float>(
+    model: &Model<M, F>,
+    mut options: FitOptions<F>,
+) -> RegressionResult<Fit<'_, M, F>, F> {
+    match model.with_options(options.clone()).fit() {
+        Err(RegressionError::BadInput(_)) => {
+            options.init_guess = None;
+            model.with_options(options).fit()
+        }
+        result => result,
+    }
+}
+
 /// Methods that require the `stats` feature for distribution CDF evaluation.
 #[cfg(feature = "stats")]
 impl<'a, M, F> Fit<'a, M, F>
@@ -1073,7 +1088,7 @@ where
             fit_options.init_guess = Some(init_guess);
             fit_options
         };
-        let fit_reduced = model_reduced.with_options(fit_options).fit()?;
+        let fit_reduced = refit(&model_reduced, fit_options)?;
         Ok(fit_reduced.deviance())
     }
 
-- 
2.43.0


From 1fbc935904e03a8089e6b90fafcf638c2a8b1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 27/34] fix: refit reduced models from the default start if
 it's better

---
 src/fit.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 0cdc66a..bfaa3fd 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -7,7 +7,7 @@ use crate::response::Response;
 use crate::{
     Linear,
     data::{Dataset, one_pad},
-    error::{RegressionError, RegressionResult},
+    error::RegressionResult,
     glm::{DispersionType, Glm},
     irls::{Irls, IrlsStep},
     link::{Link, Transform},
@@ -1009,19 +1009,20 @@ where
     }
 }
 
-/// Fit a variation of a model from the starting point given in the options, or from the default one
-/// if that isn't in the domain of the varied model.
+/// Fit a variation of a model from the starting point given in the options, unless the default one
+/// is better. The solution of the original model can be far off for the varied one, or not even in
+/// its domain.
 fn refit<M: Glm, F: Float>(
     model: &Model<M, F>,
     mut options: FitOptions<F>,
 ) -> RegressionResult<Fit<'_, M, F>, F> {
-    match model.with_options(options.clone()).fit() {
-        Err(RegressionError::BadInput(_)) => {
-            options.init_guess = None;
-            model.with_options(options).fit()
-        }
-        result => result,
-    }
+    options.init_guess = options.init_guess.filter(|guess| {
+        let guess_std = model.data.transform_beta(guess.clone());
+        let default_like = M::log_like(&model.data, &M::init_guess(&model.data));
+        let like = M::log_like(&model.data, &guess_std);
+        like.is_finite() && !(default_like > like)
+    });
+    model.with_options(options).fit()
 }
 
 /// Methods that require the `stats` feature for distribution CDF evaluation.
-- 
2.43.0


From 47ba5d20500373bb888df0b96d3aee254cc7c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 28/34] fix: don't let zero-frequency responses affect the
 initial guess

---
 src/glm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index ab1aacb..954f1db 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -138,7 +138,8 @@ pub trait Glm: Sized {
         if data.x.ncols() == 0 {
             return Array1::<F>::zeros(0);
         }
-        let y_bar: F = data.y.mean().unwrap_or_else(F::zero);
+        // An observation with zero frequency should not affect the starting point.
+        let y_bar: F = data.freq_sum(&data.y) / data.n_obs();
         let mu_y: Array1<F> = data.y.mapv(|y| F::half() * (y + y_bar));
         let link_y = mu_y.mapv(Self::Link::func);
         // Compensate for linear offsets if they are present
-- 
2.43.0


From c720d2da9fb5ed13aeded67e31e42313d54bcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:40 +0000
Subject: [PATCH 29/34] fix: reject positive responses that aren't
 representable in the fit precision

---
 src/response/exponential.rs      | 10 ++++++++--
 src/response/gamma.rs            | 10 ++++++++--
 src/response/inverse_gaussian.rs | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 51788ea..082a726 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -33,7 +33,10 @@ where
         if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The conversion can underflow to zero or overflow to infinity.
+        F::from(self)
+            .filter(|y: &F| *y > F::zero() && y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 impl<L> Yval<Exponential<L>> for f64
@@ -44,7 +47,10 @@ where
         if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The conversion can underflow to zero or overflow to infinity.
+        F::from(self)
+            .filter(|y: &F| *y > F::zero() && y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index b013caf..2d49e9b 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -32,7 +32,10 @@ where
         if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The conversion can underflow to zero or overflow to infinity.
+        F::from(self)
+            .filter(|y: &F| *y > F::zero() && y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 impl<L> Yval<Gamma<L>> for f64
@@ -43,7 +46,10 @@ where
         if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The conversion can underflow to zero or overflow to infinity.
+        F::from(self)
+            .filter(|y: &F| *y > F::zero() && y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 327265b..443d9d0 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -27,7 +27,10 @@ where
         if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The conversion can underflow to zero or overflow to infinity.
+        F::from(self)
+            .filter(|y: &F| *y > F::zero() && y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 impl<L> Yval<InvGaussian<L>> for f64
@@ -38,7 +41,10 @@ where
         if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The conversion can underflow to zero or overflow to infinity.
+        F::from(self)
+            .filter(|y: &F| *y > F::zero() && y.is_finite())
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
-- 
2.43.0


From f3f4bb01fb8ce8bcf9865d9017285bc76dbf7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:54 +0000
Subject: [PATCH 30/34] fix: terminate step halving with a tolerance of zero

---
 src/irls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index bb360e5..05589ad 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -406,7 +406,8 @@ fn get_reg<F: Float>(
 /// found to be a strict improvement.
 /// If none are found, it will check a single negative step.
 fn step_scale<F: Float>(f: &dyn Fn(F) -> F, tol: F) -> F {
-    let tol = num_traits::Float::abs(tol);
+    // A scale of zero can't be reached since the smallest subnormal number rounds to itself.
+    let tol = F::max(num_traits::Float::abs(tol), F::min_positive_value());
     // TODO: Add list of values to explicitly try (for instance with zeroed parameters)
 
     let zero: F = F::zero();
-- 
2.43.0


From bf7cb2fd781b8e1caa2774bb3c54de025e2b6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 31/34] fix: report an error for unregularized fits of singular
 designs

---
 src/data.rs | 19 +++++++++++++++++++
 src/glm.rs  |  7 +++++++
 2 files changed, 26 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 25c7cdc..b40dc61 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,7 @@
 //! Structs and utilities to represent input fit data.
 use crate::num::Float;
 use ndarray::{Array1, Array2, ArrayView2, Axis, concatenate, s};
+use ndarray_linalg::{CholeskyInto, UPLO, error::LinalgError};
 use num_traits::{FromPrimitive, One};
 use std::ops::{AddAssign, DivAssign, MulAssign, SubAssign};
 
@@ -172,6 +173,24 @@ where
         }
     }
 
+    /// Check that the columns of the weighted design matrix are linearly independent up to rounding.
+    /// The columns are scaled to the same norm so that this doesn't depend on their units, and the
+    /// result is an error if the Gram matrix of these has an eigenvalue that can't be told from zero.
+    pub(crate) fn check_full_rank(&self) -> Result<(), LinalgError> {
+        let gram: Array2<F> = self.x_conj().dot(&self.x);
+        let norms: Array1<F> = gram
+            .diag()
+            .mapv(|d| num_traits::Float::sqrt(d).max(F::min_positive_value()));
+        let mut gram = (gram / &norms) / &norms.insert_axis(Axis(1));
+        if gram.is_empty() || !gram.iter().all(|g| g.is_finite()) {
+            return Ok(());
+        }
+        let tol = F::from(2 * gram.nrows()).unwrap() * F::epsilon();
+        gram.diag_mut().mapv_inplace(|d| d - tol);
+        gram.cholesky_into(UPLO::Lower)?;
+        Ok(())
+    }
+
     /// Returns the external data matrix, scaled back to the original level. The intercept term is
     /// included so that this can be used in some fit statistic matrix multiplications.
     pub(crate) fn x_ext(&self) -> Array2<F> {
diff --git a/src/glm.rs b/src/glm.rs
index 954f1db..3edb52a 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -182,6 +182,13 @@ pub trait Glm: Sized {
             )));
         }
 
+        // Without regularization a singular design has no unique optimum, and rounding decides where the
+        // iteration ends up, if it gets anywhere at all.
+        let is_regularized = options.l1 > F::zero() || options.l2 > F::zero();
+        if !is_regularized {
+            model.data.check_full_rank()?;
+        }
+
         let initial: Array1<F> = options
             .init_guess
             .clone()
-- 
2.43.0


From 06aa4c1c7491d4db82da41023d3e4710969d18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:18 +0000
Subject: [PATCH 32/34] fix: begin at zero when the design is singular

---
 src/glm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 3edb52a..b83c9fd 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -148,6 +148,10 @@ pub trait Glm: Sized {
         } else {
             link_y
         };
+        // The solution is dominated by rounding error if the design is singular.
+        if data.check_full_rank().is_err() {
+            return Array1::<F>::zeros(data.x.ncols());
+        }
         let x_mat: Array2<F> = data.x_conj().dot(&data.x);
         let init_guess: Array1<F> = x_mat
             .solveh_into(data.x_conj().dot(&link_y))
-- 
2.43.0


From 6ec104e23b7d0d86849c3e792883d8e33e71d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:22 +0000
Subject: [PATCH 33/34] fix: don't halt at the start of an L1 fit when the
 first step overshoots

---
 src/irls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index 05589ad..1e26fb5 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -309,7 +309,17 @@ where
         // has nearly no curvature.
         let step_size = num_traits::Float::sqrt((&next_guess - &self.guess).mapv(|d| d * d).sum());
         let step_size = if step_size.is_finite() { F::max(step_size, F::one()) } else { F::one() };
-        let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol / step_size);
+        let step_tol = beta_tol_factor * self.options.tol / step_size;
+        let mut step_mult: F = step_scale(&f_step, step_tol);
+        if step_mult.is_zero() && !self.done {
+            // The step may still be an ascent direction of the augmented likelihood, e.g. if the
+            // regularization reports convergence only because the iteration begins at zero.
+            let f_step = |x: F| {
+                let b = &next_guess * x + &self.guess * (F::one() - x);
+                log_like::<M, F>(self.data, &b) + self.reg.irls_like(&b)
+            };
+            step_mult = step_scale(&f_step, step_tol);
+        }
         if step_mult.is_zero() {
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
-- 
2.43.0


From e4616297a3b0272ac49cd00b447bbe14a3f36331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:12 +0000
Subject: [PATCH 34/34] fix: keep the likelihood of certain outcomes finite
 with the cloglog link

---
 src/irls.rs              | 2 +-
 src/response/logistic.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index 1e26fb5..0745933 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -337,7 +337,7 @@ where
 /// number) have no likelihood at all. This allows such points to compare as worse than any other.
 fn log_like<M: Glm, F: Float>(data: &Dataset<F>, regressors: &Array1<F>) -> F {
     let like = M::log_like(data, regressors);
-    if like.is_nan() {
+    if like.is_nan() || !regressors.iter().all(|b| b.is_finite()) {
         F::neg_infinity()
     } else {
         like
diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index 80154f1..461a9fe 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -101,7 +101,9 @@ where
         } else {
             (F::one() - y, -logit_p)
         };
-        yt * xt - num_traits::Float::exp(xt).ln_1p()
+        // A certain outcome doesn't contribute even if the natural parameter is infinite.
+        let yx = if yt.is_zero() { F::zero() } else { yt * xt };
+        yx - num_traits::Float::exp(xt).ln_1p()
     }
 
     /// The saturated log-likelihood is zero for logistic regression when y = 0 or 1 but is less
@@ -159,7 +161,8 @@ pub mod link {
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
             lin_pred.mapv(|x| {
-                let exp_x = num_traits::Float::exp(x);
+                // Certain outcomes have no error, which an infinite derivative would turn into NaN.
+                let exp_x = F::min(num_traits::Float::exp(x), F::max_value());
                 if exp_x < F::epsilon() {
                     // The limit as e^x goes to zero
                     F::one()
-- 
2.43.0

