From 2cac23cf994b01827dfe916052405b7e454b6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:15 +0000
Subject: [PATCH 01/14] fix: SE2 exp/log use the small-angle branch for |theta|
 only

Every negative angle took the small-angle branch, so the translation of
exp(xi) was not rotated at all; the branch also dropped the first order
term, whose derivative is needed at theta = 0.
---
 src/variables/se2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..e6ce51f 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From 6efdfa46ccba8bd18b2764c503dc3cef54dfcd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:15 +0000
Subject: [PATCH 02/14] fix: SE2::vee reads back the translation written by hat

---
 src/variables/se2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index e6ce51f..74eaad5 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -180,7 +180,7 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
     }
 
     fn vee(xi: MatrixView<3, 3, T>) -> Vector3<T> {
-        Vector3::new(xi[(1, 0)], xi[(0, 1)], xi[(0, 2)])
+        Vector3::new(xi[(1, 0)], xi[(0, 2)], xi[(1, 2)])
     }
 
     fn apply(&self, v: VectorView2<T>) -> Vector2<T> {
-- 
2.43.0


From b6f60fbf27eaabbcde043086afd02e9185e0d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:15 +0000
Subject: [PATCH 03/14] fix: SE2::adjoint in (theta, x, y) order

It indexed a third translation component (a panic) and used the
(x, y, theta) ordering, unlike exp, log and hat.
---
 src/variables/se2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 74eaad5..5c696eb 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -161,9 +161,10 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
 
         let r_mat = self.rot.to_matrix();
 
-        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&r_mat);
-        mat[(0, 2)] = self.xy[2];
-        mat[(1, 2)] = -self.xy[1];
+        mat[(0, 0)] = T::from(1.0);
+        mat[(1, 0)] = self.xy[1];
+        mat[(2, 0)] = -self.xy[0];
+        mat.fixed_view_mut::<2, 2>(1, 1).copy_from(&r_mat);
 
         mat
     }
-- 
2.43.0


From df0419d6915db832cf85f6a94644782658cc1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:15 +0000
Subject: [PATCH 04/14] fix: SO3::log of a quaternion with negative w

Only w was flipped, so the result was the log of the inverse rotation.
---
 src/variables/so3.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..a43de79 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,8 +135,11 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
+        let mut xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
+        // Flip everything in case we had a negative quaternion
+        if self.xyzw.w < T::from(0.0) {
+            xi = -xi;
+        }
         let w = self.xyzw.w.abs();
 
         let norm_v = xi.norm();
-- 
2.43.0


From 408388b433a08f0781abf73e4c5e7689497c1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:15 +0000
Subject: [PATCH 05/14] fix: SO3::exp beyond a full turn

sqrt(1 - cos^2) loses the sign of sin(theta/2) for |xi| > 2 pi.
---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index a43de79..d27a713 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From a09ede746125d114ae824ac956ed9feca6f3c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:42 +0000
Subject: [PATCH 06/14] fix: NumericalDiff puts each variable's columns in its
 own place

The column offset was reset for every variable, so with more than one
variable later blocks overwrote the first.
---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From 59925ca8e4224340b7054043aa09e292876e5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:42 +0000
Subject: [PATCH 07/14] fix: forward_prop_derivative seeds the dual part

The input had no derivative part, so the result was always zero.
---
 src/linalg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 3433edd..5dc97b0 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -135,7 +135,7 @@ pub fn forward_prop_derivative<F: Fn(DualScalar) -> DualScalar>(
     f: F,
     x: dtype,
 ) -> DiffResult<dtype, dtype> {
-    let xd = x.into();
+    let xd = DualScalar::from(x).derivative();
     let r = f(xd);
     DiffResult {
         value: r.re,
-- 
2.43.0


From c821517315046f7e8e10aa0535d1f9b3b515c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:57 +0000
Subject: [PATCH 08/14] fix: keep every character of a symbol in its key

---
 src/containers/symbol.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index d34a6dc..23d564e 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -11,7 +11,7 @@ use crate::variables::VariableUmbrella;
 const KEY_BITS: usize = u64::BITS as usize;
 const CHR_BITS: usize = size_of::<char>() * 8;
 const IDX_BITS: usize = KEY_BITS - CHR_BITS;
-const CHR_MASK: u64 = (char::MAX as u64) << IDX_BITS;
+const CHR_MASK: u64 = (u32::MAX as u64) << IDX_BITS;
 const IDX_MASK: u64 = !CHR_MASK;
 
 // ------------------------- Symbol Parser ------------------------- //
@@ -45,7 +45,8 @@ impl Symbol for DefaultSymbol {}
 
 impl From<Key> for DefaultSymbol {
     fn from(key: Key) -> Self {
-        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u8 as char;
+        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)
+            .unwrap_or(char::REPLACEMENT_CHARACTER);
         let idx = key.0 & IDX_MASK;
         Self { chr, idx }
     }
-- 
2.43.0


From 669b2b23950d8d6315d472e09e57e1c5d60c805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:44 +0000
Subject: [PATCH 09/14] hook: expose the IMU preintegrator's covariance and
 residual behind the vf-hooks feature

---
 src/residuals/imu_preint/residual.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..d99a5f6 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -284,6 +284,23 @@ impl ImuPreintegrator {
     }
 }
 
+/// Access for external verification, only compiled with the `vf-hooks` feature
+#[allow(unexpected_cfgs)]
+#[cfg(feature = "vf-hooks")]
+impl ImuPreintegrator {
+    /// Covariance propagated so far
+    pub fn vf_cov(&self) -> Matrix<15, 15> {
+        self.cov
+    }
+
+    /// Residual that [build](ImuPreintegrator::build) puts into the factor
+    pub fn vf_residual(&self) -> Box<dyn crate::residuals::Residual> {
+        Box::new(ImuPreintegrationResidual {
+            delta: self.delta.clone(),
+        })
+    }
+}
+
 // ------------------------- The Residual ------------------------- //
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From ce2875595dbc5047136910bc36e8e79ca02b14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:47 +0000
Subject: [PATCH 10/14] fix: use the gyro noise for the rotation part of the
 IMU covariance

---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index d99a5f6..3e20073 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 6f92ce5d536945eff31a9543d671c1db31e3891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:22 +0000
Subject: [PATCH 11/14] fix: optimizers drop the solver's cached pattern when a
 new problem starts

---
 src/optimizers/gauss_newton.rs        | 2 ++
 src/optimizers/levenberg_marquardt.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/optimizers/gauss_newton.rs b/src/optimizers/gauss_newton.rs
index df0390d..69519a1 100644
--- a/src/optimizers/gauss_newton.rs
+++ b/src/optimizers/gauss_newton.rs
@@ -60,6 +60,8 @@ impl<S: LinearSolver> Optimizer for GaussNewton<S> {
             self.graph
                 .sparsity_pattern(ValuesOrder::from_values(_values)),
         );
+        // The solver caches the pattern of the previous problem
+        self.solver = S::default();
     }
 
     fn step(&mut self, mut values: Values, idx: usize) -> OptResult<Values> {
diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index 43fa6ac..a95bf93 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -87,6 +87,8 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
             self.graph
                 .sparsity_pattern(ValuesOrder::from_values(_values)),
         );
+        // The solver caches the pattern of the previous problem
+        self.solver = S::default();
     }
 
     // TODO: Some form of logging of the lambda value
-- 
2.43.0


From ed2c589de44134f557116ef00ec24a2e9c017e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 12/14] fix: load_g20 anchors the first vertex, not the second

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..43b2003 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -87,7 +87,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From 92cbfb970e78f2acbd3aac44bc33d5e83c91dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 13/14] fix: load_g20 reorders the SE2 information matrix to
 (theta, x, y)

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 43b2003..f8820be 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o orders (x, y, theta), SE2 orders (theta, x, y)
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From ef58b994af1e2314026b6585bc3fb1b154375244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 14/14] fix: load_g20 does not transpose the
 rotation-translation blocks of the SE3 information

---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index f8820be..927b61f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0

