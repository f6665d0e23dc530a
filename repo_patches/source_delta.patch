From 1af63cfe70fc6ceb54682f57004800f744c3f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 01/10] fix: handle the errors of the model when it is
 evaluated at a damped iterate

---
 src/solver_n_dimensional/solver/rootfinder.rs | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..f313b8f 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -304,7 +304,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = errors_next.amax();
@@ -322,7 +323,7 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                self.evaluate_model(model)?;
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -330,33 +331,45 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
-    fn update_model<M>(
-        &mut self,
-        model: &mut M,
-        proposed_guess: &nalgebra::OVector<f64, D>,
-    ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
+    /// Evaluate the model and keep track of the validity of the values obtained
+    fn evaluate_model<M>(&mut self, model: &mut M) -> Result<(), errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
-        let current_guess = model.get_iteratives();
-
-        model.set_iteratives(proposed_guess);
         match model.evaluate() {
             Ok(()) => {
                 self.valid_last_model_evaluation = true;
+                Ok(())
             }
             Err(ModelError::InaccurateValuesError(_)) => {
                 self.valid_last_model_evaluation = false;
+                Ok(())
             }
             Err(e) => {
                 self.valid_last_model_evaluation = false;
-                return Err(errors::SolverError::ModelEvaluationError(e));
+                Err(errors::SolverError::ModelEvaluationError(e))
             }
         }
+    }
+
+    fn update_model<M>(
+        &mut self,
+        model: &mut M,
+        proposed_guess: &nalgebra::OVector<f64, D>,
+    ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
+    where
+        M: model::Model<D>,
+    {
+        let errors = self.evaluate_errors(model);
+        let max_error = errors.amax();
+        let current_guess = model.get_iteratives();
+
+        model.set_iteratives(proposed_guess);
+        self.evaluate_model(model)?;
         let mut errors_next = self.evaluate_errors(model);
 
         if self.debug {
@@ -370,7 +383,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From bee1309ea591173d0fdff4dfefdda4f0acce4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 02/10] fix: return the error of a provided jacobian reported
 as inaccurate instead of panicking

---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index f313b8f..147a28c 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -159,7 +159,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -172,14 +172,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From c21f562b9c99d0df96b3d966e3d36cc43878b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 03/10] fix: do not report a success when the only evaluation
 of the model is inaccurate

---
 src/solver_n_dimensional/solver/rootfinder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 147a28c..5272806 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -401,8 +401,8 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => self.valid_last_model_evaluation = true,
+            Err(ModelError::InaccurateValuesError(_)) => self.valid_last_model_evaluation = false,
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From d2dce13a445e5f03a098d2d093aad79e628d9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 04/10] fix: the relative residual of an equation whose members
 are both zero is zero, not NaN

---
 src/solver_n_dimensional/residuals/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver_n_dimensional/residuals/mod.rs b/src/solver_n_dimensional/residuals/mod.rs
index d7ba7ff..3d730b0 100644
--- a/src/solver_n_dimensional/residuals/mod.rs
+++ b/src/solver_n_dimensional/residuals/mod.rs
@@ -87,6 +87,8 @@ impl fmt::Display for NormalizationMethod {
 pub fn normalization(x: f64, y: f64, normalization_method: NormalizationMethod) -> f64 {
     match normalization_method {
         NormalizationMethod::Abs => x - y,
+        // both members are zero: the equation is satisfied, its relative error is not 0/0
+        NormalizationMethod::Rel if x == 0.0 && y == 0.0 => 0.0,
         NormalizationMethod::Rel => (x - y) / ((x + y).abs() / 2.0),
         NormalizationMethod::Adapt => (x - y) / (1.0 + (x + y).abs() / 2.0),
     }
-- 
2.43.0


From da3b56e7e9b50c6d546aafc7e37db5ad901fd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 05/10] fix: a residual that is not a number never meets the
 tolerance

---
 src/solver_n_dimensional/solver/rootfinder.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 5272806..6a78f47 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,12 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// A residual that is not a number never meets the tolerance
+    fn tolerance_is_met(&self, errors: &nalgebra::OVector<f64, D>) -> bool {
+        let tolerance = self.parameters.get_tolerance();
+        errors.iter().all(|error| *error <= tolerance)
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -411,7 +417,6 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
 
         if self.debug {
             self.parameters_to_log();
@@ -420,9 +425,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
-            && self.iter < self.parameters.get_max_iter()
-        {
+        while !self.tolerance_is_met(&errors) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -441,11 +444,9 @@ where
                     return Err(errors::SolverError::JacobianError(error));
                 }
             }
-
-            max_error = errors.amax();
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !self.tolerance_is_met(&errors) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From ef567434571c9534572a699c6730721e0d6544cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 06/10] fix: start every resolution from a clean state when a
 solver is used again

---
 src/solver_n_dimensional/solver/rootfinder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 6a78f47..f431e21 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -402,6 +402,13 @@ where
     where
         M: model::Model<D>,
     {
+        // Forget everything about a previous resolution
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From 21695234e197a794c0babe4a8fd2f6622a587ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 07/10] fix: update the jacobian approximations from the signed
 update residuals, not from the absolute stopping residuals

---
 src/solver_n_dimensional/solver/rootfinder.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index f431e21..3454aa1 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,14 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    fn evaluate_update_residuals<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    where
+        M: model::Model<D>,
+    {
+        self.residuals_config
+            .evaluate_update_residuals(&model.get_residuals())
+    }
+
     /// A residual that is not a number never meets the tolerance
     fn tolerance_is_met(&self, errors: &nalgebra::OVector<f64, D>) -> bool {
         let tolerance = self.parameters.get_tolerance();
@@ -362,8 +370,8 @@ where
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = self.evaluate_errors(model).amax();
+        let residuals = self.evaluate_update_residuals(model);
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -389,8 +397,9 @@ where
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                let residuals_next = self.evaluate_update_residuals(model);
+                self.residuals_step_size = Some(residuals_next.clone() - residuals);
+                self.residuals_values_current = Some(residuals_next)
             }
         };
 
-- 
2.43.0


From abe43d244a65ff1538139c7a34ed9b15f786df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 08/10] fix: an iterative whose step is not a number stays
 where it is instead of jumping out of its limits

---
 src/solver_n_dimensional/iteratives/iterative_var.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..32e8a31 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -105,6 +105,9 @@ impl Iterative for IterativeParams {
     /// assert_eq!(iterative_var.step_limitation(0.1, 3.0), 0.15000000000000002);
     /// ```
     fn step_limitation(&self, value_current: f64, raw_step: f64) -> f64 {
+        // no direction to move to: the iterative stays where it is
+        let raw_step = if raw_step.is_nan() { 0.0 } else { raw_step };
+
         let max_step = self
             .max_step_abs
             .min(self.max_step_rel * value_current.abs());
-- 
2.43.0


From 2cb6a659b25bbbab5b694dd1e0e759f8e63e3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 09/10] fix: give the start of the simulation in UTC and in
 local time from one reading of the clock

---
 src/solver_n_dimensional/solver/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/solver/log.rs b/src/solver_n_dimensional/solver/log.rs
index e96472e..361a39c 100644
--- a/src/solver_n_dimensional/solver/log.rs
+++ b/src/solver_n_dimensional/solver/log.rs
@@ -20,7 +20,7 @@ pub struct SolverLog {
 #[cfg(feature = "additional_log_info")]
 fn write_time(content: &mut String) {
     let utc: DateTime<Utc> = Utc::now();
-    let local: DateTime<Local> = Local::now();
+    let local: DateTime<Local> = utc.with_timezone(&Local);
 
     content.push_str("Simulation start:\n");
 
-- 
2.43.0


From e4abc28ee5985ef6e6cdc0197b87a41858399c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 10/10] fix: forget the jacobian of an earlier iteration when
 its finite difference evaluation fails

---
 .../solver/jacobian/jacobian_finite_diff.rs              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solver_n_dimensional/solver/jacobian/jacobian_finite_diff.rs b/src/solver_n_dimensional/solver/jacobian/jacobian_finite_diff.rs
index fe6a764..937a51e 100644
--- a/src/solver_n_dimensional/solver/jacobian/jacobian_finite_diff.rs
+++ b/src/solver_n_dimensional/solver/jacobian/jacobian_finite_diff.rs
@@ -87,8 +87,11 @@ where
                 Err(errors::SolverInternalError::InvalidJacobianInverseError)
             }
         },
-        Err(model_error) => Err(errors::SolverInternalError::InvalidJacobianError(
-            model_error,
-        )),
+        Err(model_error) => {
+            jacobian.invalidate_jacobian();
+            Err(errors::SolverInternalError::InvalidJacobianError(
+                model_error,
+            ))
+        }
     }
 }
-- 
2.43.0

