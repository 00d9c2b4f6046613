From a3e9414dbc9e86d4af2aa9aea21406c5fd90a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 01/12] fix: use the configured displacer diameter in the
 rhombic drive

The config conversion copied D_p into D_d, so a configured displacer
diameter was silently ignored.
---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 9f0ca6526ff4fab3205b63adecd1d34fd6c21598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 02/12] fix: report pressure, mass flow and heat flow of the
 converged engine

On convergence the previous state was returned, so these quantities were
those of the previous outer iteration.  When the first iteration converges
(all components have a fixed approach) they were the initial hint: constant
pressure, zero mass flow and zero heat flow.
---
 src/engine/state.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..e9156f9 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then the `State`
+    /// is returned as `Err(self)` with its original temperatures, and with the
+    /// pressure, mass flows, and heat flows that correspond to `values`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,9 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and we return them unchanged, along
+            // with the pressure and flows calculated from `values`
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From c10b4886042d9524415f0324c4e15436e1050d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 03/12] fix: exchange working space heat through the thermal
 resistances

The energy balances on the compression and expansion spaces used the
external thermal parasitics as the heat flow from the gas and ignored the
thermal resistances.  Heat reported as flowing through the resistances
never left the gas, and parasitics that bypass the engine were taken from
it, so heat input, heat rejection and power did not balance.
---
 src/engine/run.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..f6a3434 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -25,7 +25,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_chx: f64,
     vol_hhx: f64,
     vol_regen: f64,
-    ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -47,7 +47,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let ws_state = state.ws();
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
-        let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -59,7 +59,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_chx,
             vol_hhx,
             vol_regen,
-            ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -75,7 +75,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            Q_dot: (temp - self.temp.chx) / self.ws_thermal_res.comp,
         }
     }
 
@@ -127,7 +127,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            Q_dot: (temp - self.temp.hhx) / self.ws_thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From df41edd0463ef4b0a23774c325192768aeae7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 04/12] fix: always report the final point of the cycle

The integrator accumulates its output times, so for long periods or high
resolutions rounding exceeded the absolute margin of 1e-14 s and the last
point was dropped.  A cycle longer than about 100 s could be considered
converged because only its first point was left.
---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..7c0a325 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period * (1.0 + 1e-9), // ensures that rounding in `x_out` cannot drop the last point
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 490f21b7688e676572782c0d36a9fda15df0e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 05/12] fix: reject a resolution of less than two points

A resolution of zero overflowed and a resolution of one produced a single
point, for which all averages over the cycle are NaN.
---
 src/state_equations/integrator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 7c0a325..3605e09 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -21,6 +21,8 @@ impl<'a, T: Cycle> Integration<'a, T> {
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
+        ensure!(num_points >= 2, "a cycle requires at least two points");
+
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
-- 
2.43.0


From c8498b4583a9bccd772a8f4f7a9cfce2a872711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 06/12] fix: return an error when the state equations cannot be
 solved

An unsolvable system of state equations panicked during the integration
instead of failing the inner loop.
---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..6cbe3bc 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -52,7 +52,7 @@ pub trait Cycle: Sized {
             let integration = Integration::try_from(self, ic, 2, ode_tol)?; // using 2 points here is faster and doesn't affect integration
             if integration.is_converged(conv_tol) {
                 let integration = Integration::try_from(self, ic, num_points, ode_tol)?;
-                return Ok(integration.into_state_values());
+                return integration.try_into_state_values();
             }
             ic = Conditions {
                 P: pres_zero,
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 3605e09..3b38fed 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -88,21 +88,29 @@ impl<'a, T: Cycle> Integration<'a, T> {
     /// Calculate state equation values at each point
     ///
     /// This function consumes the `Integration`.
+    #[cfg(test)]
     pub fn into_state_values(self) -> Vec<Values> {
+        self.try_into_state_values()
+            .expect("state equations should solve")
+    }
+
+    /// Attempt to calculate state equation values at each point
+    ///
+    /// This function consumes the `Integration`.
+    pub fn try_into_state_values(self) -> Result<Vec<Values>> {
         let mut flow_dir = FlowDirection::default();
         self.points
             .into_iter()
             .map(|point| {
                 let Point { time, conditions } = point;
                 let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
+                let solution = solve::<T::Solver>(inputs, flow_dir)?;
                 flow_dir = FlowDirection::from_solution(&solution);
-                Values {
+                Ok(Values {
                     time,
                     conditions,
                     solution,
-                }
+                })
             })
             .collect()
     }
@@ -133,8 +141,12 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
+        let Ok(solution) = solve::<T::Solver>(inputs, flow_dir_hint) else {
+            // The stepper cannot accept a step that contains these values; if
+            // a smaller step does not help, the integration returns an error.
+            dy.fill(f64::NAN);
+            return;
+        };
 
         let flow_dir = FlowDirection::from_solution(&solution);
         self.last_flow_dir.replace(flow_dir);
-- 
2.43.0


From b266c14a18461c109355f5154a4241906521a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 07/12] fix: define the regenerator temperature when both sides
 are equal

The log mean of two equal temperatures was NaN, so an engine with, for
example, the default components and a source 150 K above the sink could
not run.  Nearly equal temperatures suffered from cancellation.
---
 src/engine/state.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index e9156f9..5ab9f63 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -515,8 +515,16 @@ impl RegenImbalance {
 
         let cold = temp_chx + cold_approach;
         let hot = temp_hhx - hot_approach;
-        let avg = (temp_hhx - 0.5 * hot_approach - temp_chx - 0.5 * cold_approach)
-            / ((temp_hhx - 0.5 * hot_approach) / (temp_chx + 0.5 * cold_approach)).ln();
+
+        // Log mean temperature, which in the limit is the common temperature
+        let cold_mean = temp_chx + 0.5 * cold_approach;
+        let hot_mean = temp_hhx - 0.5 * hot_approach;
+        let diff = hot_mean - cold_mean;
+        let avg = if diff == 0. {
+            cold_mean
+        } else {
+            diff / (diff / cold_mean).ln_1p()
+        };
 
         RegenTemp { cold, avg, hot }
     }
-- 
2.43.0


From c2aefb516d608b3a9a7dd9ea6508c49d3b426f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 08/12] fix: normalize the energy balances independently of the
 enthalpy reference

The balances were divided by the average enthalpy of sink and source, which
is zero when these lie symmetrically around the reference temperature (for
example helium between 200 K and 300 K), so such an engine could not run.
---
 src/engine/run.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index f6a3434..f76018e 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -33,9 +33,12 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
     /// Create an `Run` for a specific matrix solver
     #[allow(clippy::similar_names)]
     pub(super) fn new(components: &'a Components, state: &'a State<T>) -> Self {
-        // Calculate an average enthalpy using the sink and source temperatures
-        let h_sink = state.fluid.enth(state.temp.sink, state.pres.avg);
-        let h_source = state.fluid.enth(state.temp.source, state.pres.avg);
+        // Calculate a typical enthalpy using the sink and source temperatures
+        //
+        // Enthalpy itself depends on an arbitrary reference, so its average can
+        // be zero or negative.
+        let h_sink = state.temp.sink * state.fluid.cp(state.temp.sink, state.pres.avg);
+        let h_source = state.temp.source * state.fluid.cp(state.temp.source, state.pres.avg);
         let enth_norm = 0.5 * (h_sink + h_source);
 
         // Ask heat exchanger components for their volumes
-- 
2.43.0


From 482ec5d46f30855016e23a397b65f8e52056bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 09/12] fix: reject state equations and solutions that are not
 finite

---
 src/state_equations/solver.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..f4636fc 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -1,4 +1,4 @@
-use anyhow::{anyhow, bail, Context, Result};
+use anyhow::{anyhow, bail, ensure, Context, Result};
 use na::{SMatrix, SVector};
 
 use super::{flow_direction::FlowDirection, Inputs, Solution};
@@ -143,7 +143,16 @@ impl System {
     /// Solve the system of equations
     fn solve<T: MatrixDecomposition>(&self, flow_dir: FlowDirection) -> Result<Solution> {
         let a = self.stencil.create_matrix(flow_dir);
+        // A decomposition might never end for values that are not finite
+        ensure!(
+            a.iter().chain(self.b.iter()).all(|value| value.is_finite()),
+            "state equations are not finite"
+        );
         let x = T::solve(&a, &self.b)?;
+        ensure!(
+            x.iter().all(|value| value.is_finite()),
+            "solution to the state equations is not finite"
+        );
         Ok(Solution {
             m_dot_ck: x[0],
             m_dot_kr: x[1],
-- 
2.43.0


From 79897c88bf8db1eb8fa5ec95d749c0701d2e1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 10/12] fix: solve badly scaled state equations with the
 singular value decomposition

Singular values of the unscaled matrix can be smaller than the cutoff or
lost to rounding, which gave solutions that did not satisfy the equations
(constant pressure in a small engine, or errors of more than 100%).
Solutions are now checked, and the unknowns are normalized if necessary.
---
 src/state_equations/solver.rs | 37 +++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index f4636fc..8f6809d 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -241,11 +241,44 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
+        if let Ok(x) = Self::solve_unscaled(a, b) {
+            if Self::is_solution(a, &x, b) {
+                return Ok(x);
+            }
+        }
+
+        // The columns of `A` differ by many orders of magnitude.  If this is
+        // too much for the decomposition, solve for normalized unknowns.
+        let norms = Vector::from_fn(|i, _| a.column(i).norm());
+        let scaled = Matrix::from_fn(|i, j| a[(i, j)] / norms[j]);
+        ensure!(
+            scaled.iter().all(|value| value.is_finite()),
+            "unable to solve singular matrix with SVD decomposition"
+        );
+        let x = Self::solve_unscaled(&scaled, b)?;
+        ensure!(
+            Self::is_solution(&scaled, &x, b),
+            "unable to solve matrix with SVD decomposition"
+        );
+        Ok(x.component_div(&norms))
+    }
+}
+impl SvdDefault {
+    fn solve_unscaled(a: &Matrix, b: &Vector) -> Result<Vector> {
         let eps = 1e-12;
-        a.svd_unordered(true, true)
-            .solve(b, eps)
+        let svd = a.svd_unordered(true, true);
+        ensure!(
+            svd.rank(eps) == b.len(),
+            "unable to solve singular matrix with SVD decomposition"
+        );
+        svd.solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
     }
+
+    fn is_solution(a: &Matrix, x: &Vector, b: &Vector) -> bool {
+        let tol = 1e-10;
+        (a * x - b).norm() <= tol * b.norm()
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 05e0581270b28b9af9dea51ead0efdc4f2003ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 11/12] fix: do not report a cycle whose drive depends on other
 pressures

The temperature iteration ended although the frequency or the thermal
resistances of a drive that depends on pressure differed between the
reported cycle and the reported state, so that powers, torque and heat
flows did not belong to the cycle.
---
 src/engine/state.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index 5ab9f63..5d0f2f3 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the temperatures within `tol`, then the `State`
-    /// is returned as `Err(self)` with its original temperatures, and with the
+    /// `values` change neither the temperatures nor the frequency and thermal
+    /// resistances of the drive by more than `tol`, then the `State` is
+    /// returned as `Err(self)` with its original temperatures, and with the
     /// pressure, mass flows, and heat flows that correspond to `values`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
@@ -163,7 +164,20 @@ impl<T: Fluid> State<T> {
 
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
-        if self.temp.is_converged(new_temp, tol) {
+        // A drive that depends on pressures must not change either
+        let new_ws_state = new_state.ws();
+        let freq = components.ws.frequency(&ws_state);
+        let new_freq = components.ws.frequency(&new_ws_state);
+        let new_thermal_res = components.ws.thermal_resistance(&new_ws_state);
+        let ws_converged = [
+            (freq, new_freq),
+            (thermal_res.comp, new_thermal_res.comp),
+            (thermal_res.exp, new_thermal_res.exp),
+        ]
+        .iter()
+        .all(|(old, new)| old == new || ((new - old) / old).abs() < tol.rel);
+
+        if self.temp.is_converged(new_temp, tol) && ws_converged {
             // Temperatures are converged and we return them unchanged, along
             // with the pressure and flows calculated from `values`
             Err(new_state)
-- 
2.43.0


From 02e406a06e375cd64551abf83e99cb04818e97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 12/12] fix: keep the compression volume of a rhombic drive
 above its clearance

With a crank radius larger than the eccentricity the rods pass through the
position where they are longest, and the volume there was smaller than the
clearance volume, or negative.
---
 src/ws/rhombic_drive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 68d1ab7..ea24ab2 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -104,7 +104,9 @@ impl WorkingSpaces for RhombicDrive {
             let theta = omega * time;
 
             let b_theta = (L_conn.powi(2) - (eccentricity + r_crank * theta.cos()).powi(2)).sqrt();
-            let b_1 = (L_conn.powi(2) - (eccentricity - r_crank).powi(2)).sqrt();
+            // The largest possible `b_theta`; a crank that is larger than the
+            // eccentricity takes the rods through a right angle.
+            let b_1 = (L_conn.powi(2) - (eccentricity - r_crank).max(0.).powi(2)).sqrt();
             let b_2 = ((L_conn - r_crank).powi(2) - eccentricity.powi(2)).sqrt();
 
             let dVc_dtheta =
-- 
2.43.0

