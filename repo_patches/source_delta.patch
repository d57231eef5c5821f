From e89f4f6a4c605f928bdfedd2632fbb482be3d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 01/40] fix: keep error control and direction in backward
 adaptive propagation

The accept test compared the signed step with the minimum step, so every
backward step was accepted whatever its error, and the shrink branch
replaced a small backward step by a forward one.
---
 nyx-core/src/propagators/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..13881be 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -426,7 +426,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -481,8 +481,9 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        // Keep the direction of propagation.
+                        self.prop.opts.min_step.to_seconds().copysign(step_size_s)
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From 4515d85210565cb4308da6e6f78a5aad108771b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 02/40] fix: restore the step direction when a backward
 propagation stops early

Stopping on an event left the instance with a negative step size, so the
next forward propagation of that instance would step backward.
---
 nyx-core/src/propagators/instance.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 13881be..c2e65b0 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -155,6 +155,10 @@ where
                 // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
+                    if backprop {
+                        self.step_size = -self.step_size; // Restore to a positive step size
+                    }
+
                     #[cfg(not(target_arch = "wasm32"))]
                     {
                         if self.log_progress {
@@ -248,6 +252,10 @@ where
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
 
+                    if backprop {
+                        self.step_size = -self.step_size; // Restore to a positive step size
+                    }
+
                     return Ok(self.state);
                 }
 
-- 
2.43.0


From 2ea9daf51cdb622b873127af1030f76b595ce8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 03/40] fix: third bodies have no partials in the point-mass
 gravity gradient

---
 nyx-core/src/dynamics/orbital.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..d33bb3c 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -284,14 +284,12 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on the spacecraft state: it has no dual part.
+            let r_ij: Vector3<OHyperdual<f64, Const<7>>> =
+                st_ij.radius_km.map(OHyperdual::<f64, Const<7>>::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
+            let r_j = radius - r_ij; // sc as seen from 3rd body
 
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
-- 
2.43.0


From c10db2d858bfb70282dd68da0422779f2653208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:22 +0000
Subject: [PATCH 04/40] fix: integrate the state transition matrix as the
 gradient times the current matrix

---
 nyx-core/src/dynamics/spacecraft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..e6a88ce 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
-                // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                // Apply the gradient to the STM of this osculating state: d(STM)/dt = A * STM
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From 6da28e29aeadb463cfb33d77665b63a463d4b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:54 +0000
Subject: [PATCH 05/40] fix: Ruggiero guidance coasts in eclipse

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..2f6ded0 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -439,10 +439,12 @@ impl GuidanceLaw for Ruggiero {
                     } else {
                         sc.mode = GuidanceMode::Thrust;
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From f59cfb1e04b9c54934093448900eafc15064d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:47 +0000
Subject: [PATCH 06/40] fix: setting the epoch of a Kalman estimate changes the
 estimate

---
 nyx-core/src/od/estimate/kfestimate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..f2a1aea 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -24,6 +24,7 @@ use crate::mc::{MvnSpacecraft, StateDispersion};
 use crate::{NyxError, Spacecraft};
 use anise::analysis::prelude::OrbitalElement;
 use anise::astro::orbit_gradient::OrbitGrad;
+use hifitime::Epoch;
 use nalgebra::Const;
 use nalgebra::SMatrix;
 use rand::SeedableRng;
@@ -245,6 +246,10 @@ where
         }
     }
 
+    fn set_epoch(&mut self, dt: Epoch) {
+        self.nominal_state.set_epoch(dt);
+    }
+
     fn nominal_state(&self) -> T {
         self.nominal_state
     }
-- 
2.43.0


From 6bf9efa2c5392e30b3e314f86447064d13a38e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:48 +0000
Subject: [PATCH 07/40] fix: predictions initialize the process noises like the
 filtering does

---
 nyx-core/src/od/process/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..3fa36cc 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -460,6 +460,8 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
-- 
2.43.0


From e932df0b2c5a5a69a6ec910999e52fec56eba361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:41 +0000
Subject: [PATCH 08/40] fix: merged orbit determination solutions are
 chronological

---
 .../src/od/process/solution/filter_data.rs    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..06d0d00 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,14 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
-        }
+        // Apply the permutation to all vectors: the i-th item is the one originally at indices[i].
+        self.estimates = indices.iter().map(|&i| self.estimates[i].clone()).collect();
+        self.residuals = indices.iter().map(|&i| self.residuals[i].clone()).collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
 
         self
     }
-- 
2.43.0


From f2f48b618956a650f83c7812d63ab16dbb1d76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:41 +0000
Subject: [PATCH 09/40] fix: smoothed residuals stay with the estimate of their
 epoch

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..cd77ef5 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -162,7 +162,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From 54df566c504fda8cc0533f8850141bb49cc324b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:08 +0000
Subject: [PATCH 10/40] fix: smoothing a solution with fewer than two estimates
 does not panic

---
 nyx-core/src/od/process/solution/smooth.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index cd77ef5..2b129db 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -106,6 +106,11 @@ where
         <StateType as State>::Size:
             DimMin<<StateType as State>::Size, Output = <StateType as State>::Size>,
     {
+        if self.estimates.is_empty() {
+            // Nothing to smooth.
+            return Ok(self);
+        }
+
         let l = self.estimates.len() - 1;
 
         let mut smoothed = Self {
@@ -127,7 +132,7 @@ where
         smoothed.gains.push(None);
         smoothed.filter_smoother_ratios.push(None);
 
-        loop {
+        while smoothed.estimates.len() < self.estimates.len() {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
             let sm_est_kp1 = &self.estimates[k + 1];
@@ -212,10 +217,6 @@ where
             smoothed.filter_smoother_ratios.push(Some(fs_ratios));
             // Set all gains to None.
             smoothed.gains.push(None);
-
-            if smoothed.estimates.len() == self.estimates.len() {
-                break;
-            }
         }
 
         // Note that we have yet to reverse the list, so we print them backward
-- 
2.43.0


From a9ee506f17262f73dc6b78641b0d8eef9071e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 11/40] fix: offset bounds of a tracking arc are honoured as
 given

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..3e14be4 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -20,8 +20,7 @@ use core::fmt;
 use hifitime::prelude::{Duration, Epoch};
 use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
-use std::ops::Bound::{self, Excluded, Included, Unbounded};
-use std::ops::{Add, AddAssign, RangeBounds};
+use std::ops::{Add, AddAssign, Bound, RangeBounds};
 
 mod io_ccsds_tdm;
 mod io_parquet;
@@ -395,18 +394,12 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self;
         }
-        // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
+        // Rebuild an epoch bound of the same kind.
+        let first_epoch = self.start_epoch().unwrap();
+        let start = bound.start_bound().map(|offset| first_epoch + *offset);
+        let end = bound.end_bound().map(|offset| first_epoch + *offset);
 
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch((start, end))
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From a8522d800fe622292a2890f0fd73b11d9ec5e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:43 +0000
Subject: [PATCH 12/40] fix: measurements with different measurement types are
 not equal

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From 2416305a449aa7329f58e5824ba7bd18544908eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 13/40] fix: rows of the sensitivity matrix without measurement
 are zero

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 2 +-
 nyx-core/src/od/interlink/sensitivity.rs | 2 +-
 nyx-core/src/od/msr/sensitivity.rs       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
-- 
2.43.0


From 9d6d483a5212165fa93c4b951743a377ebf30072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 14/40] fix: the timestamp noise of tracking devices keeps its
 history

---
 nyx-core/src/od/ground_station/mod.rs   | 2 +-
 nyx-core/src/od/interlink/trk_device.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..5c9fd85 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -207,7 +207,7 @@ impl GroundStation {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..e611571 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -70,7 +70,7 @@ impl InterlinkTxSpacecraft {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From 250e6572c4cbae36fa42ef6f49661209dbbe6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 15/40] fix: the position device measures the component of each
 type

---
 nyx-core/src/od/position/trk_device.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..7c68c0c 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,10 +73,20 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
+        for msr_type in self.measurement_types.iter().copied() {
+            let position_km = match msr_type {
+                MeasurementType::X => rx.orbit.radius_km.x,
+                MeasurementType::Y => rx.orbit.radius_km.y,
+                MeasurementType::Z => rx.orbit.radius_km.z,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by PositionDevice"),
+                    });
+                }
+            };
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii]
+                position_km
                     + noises.get(&msr_type).unwrap_or(&0.0)
                     + self.measurement_bias(msr_type, rx.orbit.epoch)?,
             );
-- 
2.43.0


From 264c43d569e52f034f901e803433655bfc01b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 16/40] fix: the interlink range rate uses the relative
 velocity

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index e611571..10b5eee 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the relative velocity of rx wrt tx.
+            let rel_vel_km_s = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rel_vel_km_s) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From d404fa89d8dd9a2afc3b38c45b76269a02f7b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 17/40] fix: ground asset sensitivities use the transmitter in
 the frame of the asset

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..5b6fa77 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -86,7 +86,7 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
         // must be in the estimation frame.
 
-        let transmitter = tx
+        let pnt_veh = tx
             .traj
             .at(receiver.epoch)
             .map_err(|source| ODError::ODTrajError {
@@ -95,6 +95,12 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
             })?
             .orbit;
 
+        let transmitter = almanac
+            .transform_to(pnt_veh, receiver.frame, None)
+            .context(ODAlmanacSnafu {
+                action: "computing transmitter location when computing sensitivity matrix",
+            })?;
+
         let jac = rx
             .geodetic_to_cartesian_jacobian()
             .map_err(|e| ODError::ODAlmanac {
-- 
2.43.0


From ef6d6bd808f6085362717c71a27b50bdfc865594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 18/40] fix: ground dynamics propagate the state transition
 matrix

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..e2461bc 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -31,10 +31,10 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
+        delta_t: f64,
         _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
@@ -48,10 +48,14 @@ impl Dynamics for GroundDynamics {
             0.0,
         ]);
 
+        // Propagate the STM if it is set: dΦ/dt = A·Φ.
+        let d_stm = match state_ctx.stm {
+            Some(stm) => self.dual_eom(delta_t, state_ctx, almanac)?.1 * stm,
+            None => Matrix6::zeros(),
+        };
+
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(d_stm.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From 2d512754b799fea7622171a5cd7dbf4544378624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:22 +0000
Subject: [PATCH 19/40] fix: interpolate the propellant mass from the first
 sample

The slope between the first and last sample of the window was added to the
mass of the sample at the center of the window.
---
 nyx-core/src/md/trajectory/interpolatable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..34f1286 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -100,7 +100,8 @@ impl Interpolatable for Spacecraft {
         let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
             / (last.epoch() - first.epoch()).to_seconds();
 
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        self.mass.prop_mass_kg =
+            first.mass.prop_mass_kg + prop_kg_dt * (epoch - first.epoch()).to_seconds();
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From c955c465d2fbc94110f3d4a6acce6adc1245e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:22 +0000
Subject: [PATCH 20/40] fix: sort trajectory states before removing duplicate
 epochs

dedup_by only removes consecutive duplicates, so duplicates stored out of
order were kept, which then fails the interpolation.
---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..8d5523d 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort first: the duplicates are only consecutive once ordered.
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From 7eefed7d3823dcf1001cb0f782cb0cfab1ef4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:22 +0000
Subject: [PATCH 21/40] fix: honor excluded bounds in Traj::filter_by_offset

---
 nyx-core/src/md/trajectory/traj.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 8d5523d..f0d61b7 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -45,7 +45,6 @@ use std::fmt;
 use std::fs::File;
 use std::iter::Iterator;
 use std::ops;
-use std::ops::Bound::{Excluded, Included, Unbounded};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -179,17 +178,11 @@ where
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
+        let first_epoch = self.first().epoch();
+        let start = bound.start_bound().map(|offset| first_epoch + *offset);
+        let end = bound.end_bound().map(|offset| first_epoch + *offset);
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch((start, end))
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From 0a45f03732231402dee454ad85a4eb632923b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 22/40] fix: keep the state before the epoch in the
 interpolation window

With thirteen states, a lookup between the first two used the last twelve
states only, i.e. extrapolated.
---
 nyx-core/src/md/trajectory/traj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index f0d61b7..c9cfe16 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -109,7 +109,7 @@ where
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
-                    first_idx = last_idx.saturating_sub(2 * num_left);
+                    first_idx = last_idx.saturating_sub(INTERPOLATION_SAMPLES);
                 }
 
                 let mut states = Vec::with_capacity(last_idx - first_idx);
-- 
2.43.0


From eef8eecaf6ec4cb28d35e2824229478b64243082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:13 +0000
Subject: [PATCH 23/40] fix: targeter local-frame corrections all use the axes
 of the uncorrected state

The corrections were rotated from the local frame of the state corrected so
far, but the solution's corrected state rotates their sum from the local frame
of the uncorrected state: it was not the state whose propagation achieved the
objectives.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..cdfe23b 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -430,7 +430,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -721,7 +721,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             // Now, let's apply the correction to the initial state
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From 31674c129f9b413f3f7bdc51ace92b0b7e4d09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:27 +0000
Subject: [PATCH 24/40] fix: apply verifies the targeted objectives in the
 objective frame

try_achieve_from assesses the objectives in the objective frame, but applying
its solution computed them in the integration frame and failed the verification.
---
 nyx-core/src/md/opti/targeter.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..716f495 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
-- 
2.43.0


From 55a78f616e173824da5bd81eddb4ca2d7dc95f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:27 +0000
Subject: [PATCH 25/40] fix: maneuver angle rates are finite burn variables

MnvrAlphaDot and MnvrDeltaDot were left out of is_finite_burn (the second
derivatives were listed twice), so that targeting them changed the position.
---
 nyx-core/src/md/opti/target_variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/target_variable.rs b/nyx-core/src/md/opti/target_variable.rs
index f6d0f3c..39e0d43 100644
--- a/nyx-core/src/md/opti/target_variable.rs
+++ b/nyx-core/src/md/opti/target_variable.rs
@@ -82,10 +82,10 @@ impl Vary {
     #[allow(clippy::nonminimal_bool)]
     pub fn is_finite_burn(&self) -> bool {
         *self == Self::MnvrAlpha
-            || *self == Self::MnvrAlphaDDot
+            || *self == Self::MnvrAlphaDot
             || *self == Self::MnvrAlphaDDot
             || *self == Self::MnvrDelta
-            || *self == Self::MnvrDeltaDDot
+            || *self == Self::MnvrDeltaDot
             || *self == Self::MnvrDeltaDDot
             || *self == Self::StartEpoch
             || *self == Self::Duration
-- 
2.43.0


From 2f159915b3e989a603b5f4ecca2089e5239b9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:33 +0000
Subject: [PATCH 26/40] fix: do not underflow when generating a schedule
 without any strand

With no strand to schedule (for example, no configured device ever sees the
spacecraft), the length minus one underflowed: a panic in debug builds.
---
 nyx-core/src/od/simulator/arc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..b15d75f 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -409,7 +409,7 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
         // Iterate through the strands by chronological order. Cannot use maps because we change types.
         cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
         for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
+            cfg_as_vec.iter().take(cfg_as_vec.len().saturating_sub(1)).enumerate()
         {
             // Grab the config
             if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-- 
2.43.0


From 0d1c5bc307e1c2a53e8d04567415e421c20b2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:14 +0000
Subject: [PATCH 27/40] fix: disperse Cr, Cd and propellant mass by their
 standard deviation

MvnSpacecraft::new wrote the square of the mean instead of that of the standard
deviation, at indices shifted by one with respect to those of `sample` (Cr
dispersed Cd, Cd the propellant mass, and the propellant mass was out of bounds:
a panic), and ignored the mean. The dry mass is not part of the nine sampled
components: this is an error instead of a panic.
---
 nyx-core/src/mc/multivariate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..353bb4e 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                        StateParameter::PropMass() => {
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 24a450d62b2d933fd07b39d47e46fd4f6f31f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:14 +0000
Subject: [PATCH 28/40] fix: report the applied dispersions with their sign

DispersedState documents template + actual_dispersions = state, but the
difference was computed the other way around.
---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 353bb4e..a5396f1 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -323,7 +323,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From 4b267f671ba70844b49bfe291321f9d1ffed728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:14 +0000
Subject: [PATCH 29/40] fix: standard deviations of the dispersions built from
 a covariance

from_spacecraft_cov stored the variances as standard deviations.
---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a5396f1..47c78a5 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -252,39 +252,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From 36fbc83b7e40915c698a627a0855004d859dc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 30/40] fix: apply impulsive maneuvers of sequences in their
 local frame

---
 nyx-core/src/dynamics/sequence/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..da9a0ea 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -30,6 +30,7 @@ use serde_dhall::{SimpleType, StaticType};
 use snafu::ResultExt;
 use std::collections::HashMap;
 
+use crate::dynamics::guidance::mnvr::ImpulsiveManeuver;
 use crate::dynamics::guidance::{Kluever, Ruggiero};
 use crate::dynamics::{SpacecraftDynamics, guidance::Thruster};
 use crate::errors::{FromAlmanacSnafu, FromPropSnafu};
@@ -182,8 +183,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulse(state, mnvr)?;
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +207,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulse(state, mnvr)?;
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
@@ -288,6 +287,17 @@ impl SpacecraftSequence {
     }
 }
 
+/// Applies the impulsive maneuver to this state: its delta-v is expressed in its local frame, the velocity in the inertial frame.
+fn apply_impulse(state: Spacecraft, mnvr: &ImpulsiveManeuver) -> Result<Spacecraft, NyxError> {
+    let dcm_to_inertial = state.orbit.dcm_to_inertial(mnvr.local_frame).map_err(|e| {
+        NyxError::GuidanceConfigError {
+            msg: format!("impulsive maneuver {mnvr}: {e}"),
+        }
+    })?;
+
+    Ok(state.with_orbit(state.orbit.with_dv_km_s(dcm_to_inertial * mnvr.dv_km_s)))
+}
+
 impl StaticType for SpacecraftSequence {
     fn static_type() -> serde_dhall::SimpleType {
         let mut repr = HashMap::new();
-- 
2.43.0


From 86868b193d668cb3a0eded660d37d74fbb497a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:47 +0000
Subject: [PATCH 31/40] fix: restart the STM after each step of the batch least
 squares propagation

---
 nyx-core/src/od/blse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..b4937d9 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -220,6 +220,8 @@ where
                     let step_stm = this_state.stm().expect("STM unavailable");
                     // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
                     stm = step_stm * stm;
+                    // The propagator accumulates its STM: restart it for the next step.
+                    prop_inst.state.reset_stm();
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From 196b69c47eda23f9c9cc1794b046271b2f57c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:47 +0000
Subject: [PATCH 32/40] fix: process measurements at the current epoch in the
 batch least squares

---
 nyx-core/src/od/blse/mod.rs | 196 ++++++++++++++++++------------------
 1 file changed, 99 insertions(+), 97 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index b4937d9..5ab6669 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -222,81 +222,82 @@ where
                     stm = step_stm * stm;
                     // The propagator accumulates its STM: restart it for the next step.
                     prop_inst.state.reset_stm();
+                }
 
-                    if (epoch - msr_epoch).abs() < self.epoch_precision {
-                        // Get the correct tracking device
-                        let device = match devices.get_mut(&msr.tracker) {
-                            Some(d) => d,
-                            None => {
-                                if !unknown_trackers.contains(&msr.tracker) {
-                                    error!(
-                                        "Tracker {} is not in the list of configured devices",
-                                        msr.tracker
-                                    );
-                                }
-                                unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                let this_state = prop_inst.state;
+                if (epoch - msr_epoch).abs() < self.epoch_precision {
+                    // Get the correct tracking device
+                    let device = match devices.get_mut(&msr.tracker) {
+                        Some(d) => d,
+                        None => {
+                            if !unknown_trackers.contains(&msr.tracker) {
+                                error!(
+                                    "Tracker {} is not in the list of configured devices",
+                                    msr.tracker
+                                );
                             }
-                        };
+                            unknown_trackers.insert(msr.tracker.clone());
+                            continue;
+                        }
+                    };
 
-                        for msr_type in msr.data.keys().copied() {
-                            let mut msr_types = IndexSet::new();
-                            msr_types.insert(msr_type);
+                    for msr_type in msr.data.keys().copied() {
+                        let mut msr_types = IndexSet::new();
+                        msr_types.insert(msr_type);
 
-                            let h_tilde = device
-                            .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
+                        let h_tilde = device
+                        .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
 
-                            // Compute expected measurement H(X(t_i))
-                            let computed_meas_opt = device
-                                .measure_instantaneous(this_state, None, &self.almanac)?;
+                        // Compute expected measurement H(X(t_i))
+                        let computed_meas_opt = device
+                            .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                            let computed_meas = match computed_meas_opt {
-                                Some(cm) => cm,
-                                None => {
-                                    debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
-                                    continue;
-                                }
-                            };
+                        let computed_meas = match computed_meas_opt {
+                            Some(cm) => cm,
+                            None => {
+                                debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
+                                continue;
+                            }
+                        };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        // Get the computed observation value
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
 
-                            // Get real observation y_i
-                            let real_obs = msr.observation::<U1>(&msr_types)[0];
+                        // Get real observation y_i
+                        let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                            // Sanity check measurement value
-                            ensure!(
-                                real_obs.is_finite(),
-                                InvalidMeasurementSnafu {
-                                    epoch: msr_epoch,
-                                    val: real_obs
-                                }
-                            );
+                        // Sanity check measurement value
+                        ensure!(
+                            real_obs.is_finite(),
+                            InvalidMeasurementSnafu {
+                                epoch: msr_epoch,
+                                val: real_obs
+                            }
+                        );
 
-                            // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                        // Compute residual dy = y_i - H(X(t_i))
+                        let residual = real_obs - computed_obs;
 
-                            // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
-                            let r_matrix = device
-                                .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                            let r_variance = r_matrix[(0, 0)];
+                        // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
+                        let r_matrix = device
+                            .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                        let r_variance = r_matrix[(0, 0)];
 
-                            ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                            let weight = 1.0 / r_variance;
+                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                        let weight = 1.0 / r_variance;
 
-                            // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
-                            let h_matrix = h_tilde * stm;
+                        // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
+                        let h_matrix = h_tilde * stm;
 
-                            // Accumulate Information Matrix: info_matrix += H^T * W * H
-                            // Recall that the weight is a scalar, so we can move it to the end of the operation.
-                            info_matrix += h_matrix.transpose() * &h_matrix * weight;
+                        // Accumulate Information Matrix: info_matrix += H^T * W * H
+                        // Recall that the weight is a scalar, so we can move it to the end of the operation.
+                        info_matrix += h_matrix.transpose() * &h_matrix * weight;
 
-                            // Accumulate Normal Matrix: normal_matrix += H^T * W * y
-                            normal_matrix += h_matrix.transpose() * residual * weight;
+                        // Accumulate Normal Matrix: normal_matrix += H^T * W * y
+                        normal_matrix += h_matrix.transpose() * residual * weight;
 
-                            // Accumulate sum of squares of weighted residuals
-                            sum_sq_weighted_residuals += weight * residual * residual;
-                        }
+                        // Accumulate sum of squares of weighted residuals
+                        sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
             }
@@ -487,54 +488,55 @@ where
                 let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
                 let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                 epoch = this_state.epoch();
+            }
 
-                if (epoch - msr_epoch).abs() < self.epoch_precision {
-                    let device = match devices.get_mut(&msr.tracker) {
-                        Some(d) => d,
-                        None => {
-                            if !unknown_trackers.contains(&msr.tracker) {
-                                error!(
-                                    "Tracker {} is not in the list of configured devices",
-                                    msr.tracker
-                                );
-                            }
-                            unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+            let this_state = prop_inst.state;
+            if (epoch - msr_epoch).abs() < self.epoch_precision {
+                let device = match devices.get_mut(&msr.tracker) {
+                    Some(d) => d,
+                    None => {
+                        if !unknown_trackers.contains(&msr.tracker) {
+                            error!(
+                                "Tracker {} is not in the list of configured devices",
+                                msr.tracker
+                            );
                         }
-                    };
+                        unknown_trackers.insert(msr.tracker.clone());
+                        continue;
+                    }
+                };
 
-                    for msr_type in msr.data.keys().copied() {
-                        let mut msr_types = IndexSet::new();
-                        msr_types.insert(msr_type);
+                for msr_type in msr.data.keys().copied() {
+                    let mut msr_types = IndexSet::new();
+                    msr_types.insert(msr_type);
 
-                        let computed_meas_opt = device
-                            .measure_instantaneous(this_state, None, &self.almanac)?;
+                    let computed_meas_opt = device
+                        .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                        let computed_meas = match computed_meas_opt {
-                            Some(cm) => cm,
-                            None => continue,
-                        };
+                    let computed_meas = match computed_meas_opt {
+                        Some(cm) => cm,
+                        None => continue,
+                    };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
-                        let real_obs = msr.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                    let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                        ensure!(
-                            real_obs.is_finite(),
-                            InvalidMeasurementSnafu {
-                                epoch: msr_epoch,
-                                val: real_obs
-                            }
-                        );
+                    ensure!(
+                        real_obs.is_finite(),
+                        InvalidMeasurementSnafu {
+                            epoch: msr_epoch,
+                            val: real_obs
+                        }
+                    );
 
-                        let residual = real_obs - computed_obs;
-                        let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                        let r_variance = r_matrix[(0, 0)];
+                    let residual = real_obs - computed_obs;
+                    let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                    let r_variance = r_matrix[(0, 0)];
 
-                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                        let weight = 1.0 / r_variance;
+                    ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                    let weight = 1.0 / r_variance;
 
-                        sum_sq_weighted_residuals += weight * residual * residual;
-                    }
+                    sum_sq_weighted_residuals += weight * residual * residual;
                 }
             }
         }
-- 
2.43.0


From ed01244d97b880a2e8e47b45b2a751f9288328c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:48 +0000
Subject: [PATCH 33/40] fix: keep Izzo's transfer plane oriented by the
 transfer, whichever side of the frame it is on

---
 nyx-core/src/tools/lambert/izzo.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..1057716 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -63,13 +63,6 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let mut i_h = i_r1.cross(&i_r2);
     i_h /= i_h.norm(); // Ensure normalization
 
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
-    }
-
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
     let mut m_lambda = lambda.sqrt();
-- 
2.43.0


From e5f9baefd35281469eea734d3400e72f7cca220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:40 +0000
Subject: [PATCH 34/40] fix: search the event in the frame it is requested in

---
 nyx-core/src/propagators/event.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..4f01393 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -189,7 +189,17 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-- 
2.43.0


From d754da294ef6850f62edd5194bee8b7a8b8d0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 35/40] fix: find events when propagating backward

---
 nyx-core/src/propagators/event.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 4f01393..a2653e7 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -170,7 +170,12 @@ where
         traj.finalize();
 
         // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
+        // In a backward propagation, the last published state is the first one chronologically.
+        let last_traj_state = if max_duration.is_negative() {
+            traj.states.first().cloned().unwrap()
+        } else {
+            traj.states.last().cloned().unwrap()
+        };
         if end_state == last_traj_state {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
@@ -180,6 +185,7 @@ where
 
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
-- 
2.43.0


From 5e18cde388075492afc900e2d09b57f3aa5bc79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:18 +0000
Subject: [PATCH 36/40] fix: read COF gravity fields from a configuration

Path::ends_with compares whole components, so a COF file given in a
configuration was always handed to the SHADR reader, which fails on it.
---
 nyx-core/src/io/gravity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..35975d0 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,9 +104,9 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
-        {
+        // NOTE: Path::ends_with only matches whole path components, so check the file name itself.
+        let extension = if cfg.gunzipped { ".cof.gz" } else { ".cof" };
+        if cfg.filepath.to_string_lossy().ends_with(extension) {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
             Self::from_shadr(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
-- 
2.43.0


From 9a93a50d0cd3d09ecbb60a729e32d5667a5ed2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:28 +0000
Subject: [PATCH 37/40] fix: do not halve the angles of a two-way TDM section

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..849eb29 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -174,8 +174,11 @@ impl TrackingDataArc {
                 {
                     has_freq_data = true;
                     1.0
-                } else {
+                } else if mtype.may_be_two_way() {
                     msr_divider
+                } else {
+                    // Angles are the same for one-way and two-way paths.
+                    1.0
                 };
 
                 let scaled_value = value / effective_divider;
-- 
2.43.0


From af8f45e10196e756189503ab6469ca82bfefa932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:28 +0000
Subject: [PATCH 38/40] fix: write the epochs of a TDM file in UTC as its
 metadata says

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 849eb29..97c20ad 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -519,13 +519,21 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.start_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.end_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
 
@@ -596,7 +604,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::to_time_scale(m.epoch, iso8601_no_ts, TimeScale::UTC),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From dde863e3a1597ed37c2a3282f37e66f9a34df928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:42 +0000
Subject: [PATCH 39/40] fix: do not read empty Parquet cells as observables

---
 nyx-core/src/od/msr/trackingdata/io_parquet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..59ffe4b 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -183,25 +183,25 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
+                if range_avail && range_data.unwrap().is_valid(i) {
                     measurement
                         .data
                         .insert(MeasurementType::Range, range_data.unwrap().value(i));
                 }
 
-                if doppler_avail {
+                if doppler_avail && doppler_data.unwrap().is_valid(i) {
                     measurement
                         .data
                         .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
                 }
 
-                if az_avail {
+                if az_avail && azimuth_data.unwrap().is_valid(i) {
                     measurement
                         .data
                         .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
                 }
 
-                if el_avail {
+                if el_avail && elevation_data.unwrap().is_valid(i) {
                     measurement
                         .data
                         .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
-- 
2.43.0


From ab3b006c0fe40e93397de2718770b992c490717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:42 +0000
Subject: [PATCH 40/40] fix: keep the last measurement when exporting from an
 epoch to Parquet

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 59ffe4b..3d53f5e 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -266,19 +266,12 @@ impl TrackingDataArc {
 
         // Build the measurement iterator
 
-        let measurements =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.start_epoch().unwrap());
-                let end = cfg.end_epoch.unwrap_or_else(|| self.end_epoch().unwrap());
-
-                info!("Exporting measurements from {start} to {end}.");
-
-                self.clone().filter_by_epoch(start..end).measurements
-            } else {
-                self.measurements.clone()
-            };
+        let measurements = match (cfg.start_epoch, cfg.end_epoch) {
+            (Some(start), Some(end)) => self.clone().filter_by_epoch(start..end).measurements,
+            (Some(start), None) => self.clone().filter_by_epoch(start..).measurements,
+            (None, Some(end)) => self.clone().filter_by_epoch(..end).measurements,
+            (None, None) => self.measurements.clone(),
+        };
 
         // Build all of the records
 
-- 
2.43.0

