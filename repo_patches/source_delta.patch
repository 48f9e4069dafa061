From 06c67eac14737cb7f8c8b15f049240f3c3d79853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 01/26] fix: scale the acceleration control points of the
 continuous formulation to real time

---
 src/computeCOMTraj.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..9143cfd 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -499,10 +499,13 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      // the control points of a derivative are expressed in normalized time,
+      // mult_T_ scales them back
+      const waypoint_t wp_ddc = ddcs.mult_T_ * (*wpit);
+      A.block(id_rows, 0, 3, 3) = wp_ddc.first;  // upper
+      b.segment(id_rows, 3) = acc_bounds - wp_ddc.second;
+      A.block(id_rows + 3, 0, 3, 3) = -wp_ddc.first;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + wp_ddc.second;
       id_rows += 6;
     }
   }
-- 
2.43.0


From f0f174b45845916ca73bdddd01771efd94cc50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 02/26] fix: allocate one row per variable for the upper bounds
 given to quadprog

---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From fbe10861d56dc7498bcb49285cf3a41e545bd452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 03/26] fix: reject TARGET_END_VELOCITY only when the end
 velocity is a constraint

---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From c6c4991d6d458fe8d1ff1602d6140bd2a7b7f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 04/26] fix: constrain the angular momentum waypoint with the
 angular constraints

---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From ee856d38ba9407445169d8e29823b03a45bdfe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 05/26] fix: do not extract past the end of the curve when
 durations do not add up exactly

---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 9143cfd..0e39a20 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -459,10 +459,12 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
   for (size_t id_phase = 0; id_phase < (size_t)Ts.size(); ++id_phase) {
-    bezier_wp_t cs = c.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ddcs = ddc.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ws = w.extract(current_t, Ts[id_phase] + current_t);
-    current_t += Ts[id_phase];
+    // the accumulated time may exceed T by a rounding error
+    const double next_t = std::min(current_t + Ts[id_phase], T);
+    bezier_wp_t cs = c.extract(current_t, next_t);
+    bezier_wp_t ddcs = ddc.extract(current_t, next_t);
+    bezier_wp_t ws = w.extract(current_t, next_t);
+    current_t = next_t;
 
     phase = pData.contacts_[id_phase];
 
-- 
2.43.0


From 80ef3e37273c5e4e89586f5f35c12cdb7717b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 06/26] fix: keep the jerk waypoints in computeBezierCurve

---
 include/hpp/bezier-com-traj/utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
-- 
2.43.0


From f67365ea8731a50a0fcc8b890a0cde573cc0ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 07/26] fix: identify the free waypoints by their position and
 not by a null value

---
 src/waypoints_definition.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..40c4bb4 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -299,14 +299,27 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_POINT = 3;  // FIXME : always true ??
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
+  // the free waypoints follow the ones imposed by the initial state. A constant
+  // waypoint may be null, so its value does not tell whether it is free.
+  const ConstraintFlag flag = pData.constraints_.flag_;
+  const size_t numVar = (size_t)(DIM_VAR / DIM_POINT);
+  size_t firstFree = 0;
+  if (flag & INIT_POS) ++firstFree;
+  if (flag & INIT_VEL) ++firstFree;
+  if (flag & INIT_ACC) ++firstFree;
+  if (flag & INIT_JERK) ++firstFree;
+  // without final position, the free waypoint is repeated to stop on it
+  const bool stop = (flag & END_VEL) && !(flag & END_POS);
+  const size_t endFree = firstFree + numVar + (stop ? 1 : 0);
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  for (size_t i = 0; i < pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+    if (i >= firstFree && i < endFree) {
+      const size_t var = std::min(i - firstFree, numVar - 1);
+      w.first.block(0, var * DIM_POINT, DIM_POINT, DIM_POINT) =
+          MatrixXX::Identity(DIM_POINT, DIM_POINT);
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From 4fa56f3fd1832e556b10e037648f1542193842d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 08/26] fix: acceleration control points of the curves with
 three and five free waypoints

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh  | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh  | 5 ++---
 src/waypoints_definition.cpp                                 | 1 +
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..0b3a163 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..dcfe194 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -371,7 +371,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +401,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +412,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index 40c4bb4..37508eb 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -6,6 +6,7 @@
 #ifndef BEZIER_COM_TRAJ_WP_DEF_H
 #define BEZIER_COM_TRAJ_WP_DEF_H
 
+#include <algorithm>
 #include <hpp/bezier-com-traj/data.hh>
 #include <hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_c1.hh>
 #include <hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_dc1.hh>
-- 
2.43.0


From 984bd46a37af3973a10719aaf360385e17a12b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 09/26] fix: use the initial position in the expressions of the
 degree 8 curve

---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..efc2c1d 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
@@ -501,7 +501,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-8.0 * pi[7] + 8.0 * pi[8]) / T;
   return v;
 }
 
-- 
2.43.0


From 69a5ce59074f381c40a4d18d9cc7a5206bbb9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 10/26] fix: order of the coefficients in the derivatives of
 the curve with three free waypoints

---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 0b3a163..f9d1f1c 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
@@ -443,7 +443,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-10.0 * pi[9] + 10.0 * pi[10]) / T;
   return v;
 }
 
-- 
2.43.0


From efef8a020f0cfaf28fda8bf9ec18b4f2ee34a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 11/26] fix: derivatives of the curve with five free waypoints

---
 ...points_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh | 181 ++++--------------
 1 file changed, 32 insertions(+), 149 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index dcfe194..9963680 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -86,154 +86,6 @@ inline waypoint_t evaluateCurveWaypointAtTime(const std::vector<point_t>& pi,
   return wp;
 }
 
-// TODO
-inline waypoint_t evaluateVelocityCurveWaypointAtTime(
-    const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  const double t9 = t8 * t;
-
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) = Matrix3::Identity() * alpha;   // x0
-  wp.first.block<3, 3>(0, 3) = Matrix3::Identity() * alpha;   // x1
-  wp.first.block<3, 3>(0, 6) = Matrix3::Identity() * alpha;   // x2
-  wp.first.block<3, 3>(0, 9) = Matrix3::Identity() * alpha;   // x3
-  wp.first.block<3, 3>(0, 12) = Matrix3::Identity() * alpha;  // x4
-
-  wp.second =
-      (1.0 * (-10.0 * pi[0] + 10.0 * pi[1]) +
-       t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
-       t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
-                    360.0 * pi[3])) +
-       t3 * (1.0 *
-             (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
-              3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
-                    3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
-                    450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
-                    450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
-                    12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
-                    25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
-                    29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
-                    20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
-      alpha;
-  return wp;
-}
-
-// TODO
-inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
-    const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 90720.0 * t7 + 176400.0 * t6 - 176400.0 * t5 +
-              94500.0 * t4 - 25200.0 * t3 + 2520.0 * t2));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-22680.0 * t8 + 90720.0 * t7 - 141120.0 * t6 + 105840.0 * t5 -
-              37800.0 * t4 + 5040.0 * t3));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 60480.0 * t7 + 70560.0 * t6 - 35280.0 * t5 +
-              6300.0 * t4));  // x2
-  wp.second =
-      (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2]) +
-       t * (1.0 * (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] +
-                   720.0 * pi[3])) +
-       t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
-                    10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
-                    4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
-                    4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
-                    50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
-                    126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
-                    176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
-                    141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
-                    60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
-                    720.0 * pi[9]))) *
-      alpha;
-  return wp;
-}
-
-// TODO
-inline waypoint_t evaluateJerkCurveWaypointAtTime(
-    const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 635040.0 * t6 + 1058400.0 * t5 - 882000.0 * t4 +
-              378000.0 * t3 - 75600.0 * t2 + 5040.0 * t));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-181440.0 * t7 + 635040.0 * t6 - 846720.0 * t5 + 529200.0 * t4 -
-              151200.0 * t3 + 15120.0 * t2));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 423360.0 * t6 + 423360.0 * t5 - 176400.0 * t4 +
-              25200.0 * t3));  // x2
-  wp.second =
-      (1.0 *
-           (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] + 720.0 * pi[3]) +
-       t * (1.0 * (5040.0 * pi[0] - 20160.0 * pi[1] + 30240.0 * pi[2] -
-                   20160.0 * pi[3])) +
-       t2 * (1.0 * (-15120.0 * pi[0] + 75600.0 * pi[1] - 151200.0 * pi[2] +
-                    151200.0 * pi[3])) +
-       t3 * (1.0 * (25200.0 * pi[0] - 151200.0 * pi[1] + 378000.0 * pi[2] -
-                    504000.0 * pi[3])) +
-       t4 * (1.0 * (-25200.0 * pi[0] + 176400.0 * pi[1] - 529200.0 * pi[2] +
-                    882000.0 * pi[3] + 25200.0 * pi[7])) +
-       t5 * (1.0 * (15120.0 * pi[0] - 120960.0 * pi[1] + 423360.0 * pi[2] -
-                    846720.0 * pi[3] - 120960.0 * pi[7] + 15120.0 * pi[8])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 45360.0 * pi[1] - 181440.0 * pi[2] +
-                    423360.0 * pi[3] + 181440.0 * pi[7] - 45360.0 * pi[8] +
-                    5040.0 * pi[9])) +
-       t7 * (1.0 * (720.0 * pi[0] + 720.0 * pi[10] - 7200.0 * pi[1] +
-                    32400.0 * pi[2] - 86400.0 * pi[3] - 86400.0 * pi[7] +
-                    32400.0 * pi[8] - 7200.0 * pi[9]))) *
-      alpha;
-  return wp;
-}
-
 inline std::vector<point_t> computeConstantWaypoints(const ProblemData& pData,
                                                      double T) {
   // equation for constraint on initial and final position and velocity and
@@ -491,13 +343,44 @@ std::vector<waypoint_t> computeJerkWaypoints(
   return wps;
 }
 
+// point at t (normalized !) of the curve of control points wps
+inline waypoint_t evaluateWaypointsAtTime(const std::vector<waypoint_t>& wps,
+                                          double t) {
+  const std::vector<ndcurves::Bern<double> > berns =
+      ComputeBersteinPolynoms((unsigned int)wps.size() - 1);
+  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
+  for (std::size_t i = 0; i < wps.size(); ++i) {
+    const double b = berns[i](t);
+    wp.first += b * wps[i].first;
+    wp.second += b * wps[i].second;
+  }
+  return wp;
+}
+
+inline waypoint_t evaluateVelocityCurveWaypointAtTime(
+    const std::vector<point_t>& pi, double T, double t) {
+  return evaluateWaypointsAtTime(computeVelocityWaypoints(ProblemData(), T, pi),
+                                 t);
+}
+
+inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
+    const std::vector<point_t>& pi, double T, double t) {
+  return evaluateWaypointsAtTime(
+      computeAccelerationWaypoints(ProblemData(), T, pi), t);
+}
+
+inline waypoint_t evaluateJerkCurveWaypointAtTime(
+    const std::vector<point_t>& pi, double T, double t) {
+  return evaluateWaypointsAtTime(computeJerkWaypoints(ProblemData(), T, pi), t);
+}
+
 // TODO
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-12.0 * pi[11] + 12.0 * pi[12]) / T;
   return v;
 }
 
-- 
2.43.0


From 7bcb3caa463a3a48ac6bb1a507e2286fa29e90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 12/26] fix: expression of w for the degree 8 curve

---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 179 +++---------------
 1 file changed, 29 insertions(+), 150 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index efc2c1d..8d19158 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -6,6 +6,7 @@
  * Author: Pierre Fernbach
  */
 
+#include <algorithm>
 #include <hpp/bezier-com-traj/data.hh>
 
 namespace bezier_com_traj {
@@ -210,157 +211,35 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  std::vector<Matrix3> Cpi;
-  for (std::size_t i = 0; i < pi.size(); ++i) {
-    Cpi.push_back(skew(pi[i]));
-  }
+  const int n = 8;  // degree of the curve
+  const std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
-  const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
-
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  const double alpha = double(n * (n - 1)) / (T * T);
+  // control points of c and ddc, as factor * x + constant
+  std::vector<coefs_t> c, ddc;
+  for (int i = 0; i <= n; ++i)
+    c.push_back(i == 4 ? coefs_t(1., point_t::Zero()) : coefs_t(0., pi[i]));
+  for (int i = 0; i <= n - 2; ++i)
+    ddc.push_back(
+        coefs_t(alpha * (c[i].first - 2. * c[i + 1].first + c[i + 2].first),
+                alpha * (c[i].second - 2. * c[i + 1].second + c[i + 2].second)));
+  // w = (ddc ; c x (ddc - g)) is written with the degree of the product
+  for (int k = 0; k <= 2 * n - 2; ++k) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    for (int i = std::max(0, k - (n - 2)); i <= std::min(n, k); ++i) {
+      const int j = k - i;
+      const double b = double(ndcurves::bin(n, i)) *
+                       double(ndcurves::bin(n - 2, j)) /
+                       double(ndcurves::bin(2 * n - 2, k));
+      const point_t f = ddc[j].second - g;
+      w.first.block<3, 3>(0, 0) += b * ddc[j].first * Matrix3::Identity();
+      w.first.block<3, 3>(3, 0) +=
+          b * (ddc[j].first * skew(c[i].second) - c[i].first * skew(f));
+      w.second.head<3>() += b * ddc[j].second;
+      w.second.tail<3>() += b * c[i].second.cross(f);
+    }
+    wps.push_back(w);
+  }
   return wps;
 }
 
-- 
2.43.0


From 8ca48f1b8a50a8819dc45457f57da524acf2368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 13/26] fix: size the glpk constraint arrays for the problem

---
 src/glpk-wrapper.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..05eb066 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,11 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  const std::size_t num_elements =
+      1 + (std::size_t)((CE.rows() + CI.rows()) * x.size());
+  std::vector<int> ia(num_elements);  // Row indices of each element
+  std::vector<int> ja(num_elements);  // column indices of each element
+  std::vector<double> ar(num_elements);  // values of corresponding elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +99,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From eb7d1c499272324132fcace329aac4c33decb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 14/26] fix: do not ask glpk to add zero rows

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 05eb066..af95833 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -61,7 +61,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
-- 
2.43.0


From d56d845a760489144095a659f2d798298f0b8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 15/26] fix: declare a variable whose bounds are equal as fixed
 to glpk

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index af95833..7272e6a 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -29,7 +29,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = mibV == mabV ? GLP_FX : GLP_DB;
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From fc10a46c6573fed09ad09305a8204abaed04a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 16/26] fix: impose the wrench at the junction of two phases in
 both of them (force formulation)

---
 src/computeCOMTraj.cpp | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 0e39a20..61447eb 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -388,22 +388,12 @@ long int computeNumEqContinuous(const ProblemData& pData, const int w_degree,
                                 const bool useForce, long int& forceVarDim) {
   long int numEq = 0;
   if (useForce) {
-    long int cSize = 0;
-    int currentDegree;  // remove redundant equalities depending on more
-                        // constraining problem
-    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
-    ++it2;
+    // the wrench at a control point shared by two phases must be feasible in
+    // both of them, each with its own contact forces
     for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
-         it != pData.contacts_.end(); ++it, ++it2) {
-      currentDegree = w_degree + 1;
-      if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
-        currentDegree -= 1;
-      cSize = it->contactPhase_->m_G_centr.cols();
-      if (it2 != pData.contacts_.end() &&
-          it2->contactPhase_->m_G_centr.cols() <= cSize)
-        currentDegree -= 1;
-      forceVarDim += cSize * (currentDegree);
-      numEq += (numRowsForce) * (currentDegree);
+         it != pData.contacts_.end(); ++it) {
+      forceVarDim += it->contactPhase_->m_G_centr.cols() * (w_degree + 1);
+      numEq += numRowsForce * (w_degree + 1);
     }
   }
   return numEq;
@@ -454,7 +444,6 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   int dimH;
   Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;
 
-  long int cSize = 0;
   long int rowIdx = 0;
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
@@ -484,16 +473,8 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
         assignStabilityConstraintsForTimeStep(mH, h, *wpit, dimH, id_rows, A, b,
                                               phase.contactPhase_->m_gravity);
     } else {
-      bezier_wp_t::cit_point_t start = ws.waypoints().begin();
-      bezier_wp_t::cit_point_t stop = ws.waypoints().end();
-      if (id_phase + 1 < (size_t)Ts.size() &&
-          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <=
-              phase.contactPhase_->m_G_centr.cols())
-        --stop;
-      if (cSize > 0 && cSize < phase.contactPhase_->m_G_centr.cols()) ++start;
-      cSize = phase.contactPhase_->m_G_centr.cols();
-      for (bezier_wp_t::cit_point_t wpit = start; wpit != stop;
-           ++wpit, rowIdx += 6)
+      for (bezier_wp_t::cit_point_t wpit = ws.waypoints().begin();
+           wpit != ws.waypoints().end(); ++wpit, rowIdx += 6)
         assignStabilityConstraintsForTimeStepForce(
             *wpit, rowIdx, id_cols, phase.contactPhase_->m_G_centr, D, d,
             phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);
-- 
2.43.0


From 8ade8d336783707192f1c6e9974c9e4eb86580cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 17/26] fix: minimise, not maximise, when the factor of the
 inverse Hessian is given to the active-set solver

---
 src/eiquadprog-fast.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..8dba4bc 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -304,17 +304,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = m_J * (m_J.transpose() * (-g0));
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
     chol_.solveInPlace(x);
-  }
 #else
-    x = chol_.solve(g0);
-  }
-  x = -x;
+    x = chol_.solve(-g0);
 #endif
+  }
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
 #ifdef TRACE_SOLVER
@@ -726,17 +724,10 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = m_J * (m_J.transpose() * (-g0));
   } else {
-#ifdef OPTIMIZE_UNCONSTR_MINIM
-    // x = -g0;
     x = cholsp_.solve(-g0);
   }
-#else
-    x = cholsp_.solve(g0);
-  }
-  x = -x;
-#endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
 #ifdef TRACE_SOLVER
-- 
2.43.0


From e891a7d919661228c0775855bf1c01f40b0993c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 18/26] fix: use the inverse of the Cholesky factor in the
 sparse active-set solver

---
 src/eiquadprog-fast.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 8dba4bc..7118f53 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -689,7 +689,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  // no reordering: the factor is the one of Hess itself
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower, Eigen::NaturalOrdering<int> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
@@ -703,11 +705,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   if (!is_inverse_provided_) {
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
-#ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
-#else
     m_J = cholsp_.matrixU().solve(m_J);
-#endif
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
   }
 
-- 
2.43.0


From d642d3880a480b5f0fd3aea3c44ae46101ea0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 19/26] fix: decide whether a constraint is independent of the
 active ones relatively to the scale of the problem

---
 src/eiquadprog-fast.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7118f53..46fa1f7 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -342,8 +342,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
     t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
+    if (std::abs(z.dot(np)) >
+        std::numeric_limits<double>::epsilon() * d.squaredNorm())  // z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
@@ -538,8 +538,8 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (std::abs(z.dot(np)) >
+      std::numeric_limits<double>::epsilon() * d.squaredNorm())  // z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
@@ -755,8 +755,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
     t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
+    if (std::abs(z.dot(np)) >
+        std::numeric_limits<double>::epsilon() * d.squaredNorm())  // z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
@@ -951,8 +951,8 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (std::abs(z.dot(np)) >
+      std::numeric_limits<double>::epsilon() * d.squaredNorm())  // z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
-- 
2.43.0


From be5f7351825b6f1a64cc7e0dba669d90aa34ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 20/26] fix: do not accept violated constraints when the
 Hessian is badly scaled (active-set solver)

---
 src/eiquadprog-fast.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 46fa1f7..8fadcd2 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -227,6 +227,22 @@ void print_matrix(const char* name, Eigen::MatrixBase<Derived>& x, int n) {
   //  std::cout << name << std::endl << x << std::endl;
 }
 
+/* whether CI x + ci0 = s is only negative by rounding errors. The estimate of
+ * cond(Hess) alone would also accept true violations when Hess is badly scaled.
+ */
+static bool satisfiedUpToRounding(const EiquadprogFast::MatrixXd& CI,
+                                  const EiquadprogFast::VectorXd& ci0,
+                                  const EiquadprogFast::VectorXd& s,
+                                  const EiquadprogFast::VectorXd& x) {
+  for (int i = 0; i < (int)s.size(); i++)
+    if (s(i) < 0.0) {
+      const double size = 1.0 + std::abs(ci0(i)) +
+                          CI.row(i).cwiseAbs().dot(x.cwiseAbs().transpose());
+      if (s(i) < -1e-10 * size) return false;
+    }
+  return true;
+}
+
 EiquadprogFast_status EiquadprogFast::solve_quadprog(
     const MatrixXd& Hess, const VectorXd& g0, const MatrixXd& CE,
     const VectorXd& ce0, const MatrixXd& CI, const VectorXd& ci0, VectorXd& x) {
@@ -451,8 +467,9 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <=
-      nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
+  if (std::abs(psi) <= nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
+                           c2 * 100.0 &&
+      satisfiedUpToRounding(CI, ci0, s, x)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
@@ -864,8 +881,9 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <=
-      nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
+  if (std::abs(psi) <= nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
+                           c2 * 100.0 &&
+      satisfiedUpToRounding(CI, ci0, s, x)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
-- 
2.43.0


From c6fc3a6bdd1012270d2d2b780940b8dd5e836355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 21/26] fix: do not cycle on rounding errors when the Hessian
 is tiny (active-set solver)

---
 src/eiquadprog-fast.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 8fadcd2..1cac982 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -227,18 +227,20 @@ void print_matrix(const char* name, Eigen::MatrixBase<Derived>& x, int n) {
   //  std::cout << name << std::endl << x << std::endl;
 }
 
-/* whether CI x + ci0 = s is only negative by rounding errors. The estimate of
- * cond(Hess) alone would also accept true violations when Hess is badly scaled.
+/* whether CI x + ci0 = s is only negative by rounding errors, relatively to the
+ * terms of the sum. The estimate of cond(Hess) alone would also accept true
+ * violations when Hess is badly scaled, and is useless when Hess is tiny.
  */
 static bool satisfiedUpToRounding(const EiquadprogFast::MatrixXd& CI,
                                   const EiquadprogFast::VectorXd& ci0,
                                   const EiquadprogFast::VectorXd& s,
-                                  const EiquadprogFast::VectorXd& x) {
+                                  const EiquadprogFast::VectorXd& x,
+                                  const double tolerance) {
   for (int i = 0; i < (int)s.size(); i++)
     if (s(i) < 0.0) {
       const double size = 1.0 + std::abs(ci0(i)) +
                           CI.row(i).cwiseAbs().dot(x.cwiseAbs().transpose());
-      if (s(i) < -1e-10 * size) return false;
+      if (s(i) < -tolerance * size) return false;
     }
   return true;
 }
@@ -467,9 +469,10 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <= nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
-                           c2 * 100.0 &&
-      satisfiedUpToRounding(CI, ci0, s, x)) {
+  if ((std::abs(psi) <= nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
+                            c2 * 100.0 &&
+       satisfiedUpToRounding(CI, ci0, s, x, 1e-10)) ||
+      satisfiedUpToRounding(CI, ci0, s, x, 1e-14)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
@@ -881,9 +884,10 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <= nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
-                           c2 * 100.0 &&
-      satisfiedUpToRounding(CI, ci0, s, x)) {
+  if ((std::abs(psi) <= nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
+                            c2 * 100.0 &&
+       satisfiedUpToRounding(CI, ci0, s, x, 1e-10)) ||
+      satisfiedUpToRounding(CI, ci0, s, x, 1e-14)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
-- 
2.43.0


From 166fac1ba1caa5588be0566e591cf2f6c09c5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 22/26] fix: keep a problem alive while Python refers to its
 constraints

ProblemData.constraints_ returned a reference to the constraints of the
problem without tying them to it: once the problem was collected, reading
or writing the constraints accessed freed memory.
---
 python/bezier_com_traj.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index dff09bd..c795438 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -388,8 +388,7 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
                     &set_GIWC_representation_)
       .add_property(
           "constraints_",
-          make_function(&get_constraints_,
-                        return_value_policy<reference_existing_object>()),
+          make_function(&get_constraints_, return_internal_reference<>()),
           &set_constraints_)
       .def("clearContacts", clearContacts)
       .def("addContact", addContact);
-- 
2.43.0


From 43e01e86c820f436885977c0305519f398f6767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 23/26] fix: keep the contact phase of a ContactData alive in
 Python

The constructor of ContactData ties the contact phase to the contact, but
assigning contactPhase_ did not, and neither did reading it tie the result
to the contact: the geometry was used after it had been collected.
---
 python/bezier_com_traj.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index c795438..e6d1ebe 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -366,9 +366,8 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
           centroidal_dynamics::Equilibrium*>()[with_custodian_and_ward<1, 2>()])
       .add_property(
           "contactPhase_",
-          make_function(&getContactPhase_,
-                        return_value_policy<reference_existing_object>()),
-          &setContactPhase_)
+          make_function(&getContactPhase_, return_internal_reference<>()),
+          make_function(&setContactPhase_, with_custodian_and_ward<1, 2>()))
       .add_property("Kin_", &get_Kin)
       .add_property("Ang_", &get_Ang)
       .def("setKinematicConstraints", &set_Kin)
-- 
2.43.0


From 034eeca85a72965323dabafc5a04a7267692d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 24/26] fix: the discretised velocity cost counts the products
 of different free points

computeVelCostFunctionDiscretized only filled the diagonal blocks of the
quadratic cost: with three or five free points it was not the sum of the
squared velocities.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..56073e9 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -291,14 +291,8 @@ void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   g = VectorX::Zero(dimVar(pData));
   for (std::vector<waypoint_t>::const_iterator ckcit = cks.begin();
        ckcit != cks.end(); ++ckcit) {
-    // H+=(ckcit->first.transpose() * ckcit->first);
-    // g+=ckcit->second.transpose() * ckcit->first;
-    for (int i = 0; i < (dimVar(pData) / 3); ++i) {
-      H.block<3, 3>(i * 3, i * 3) +=
-          Matrix3::Identity() * ckcit->first(0, i * 3) * ckcit->first(0, i * 3);
-      g.segment<3>(i * 3) +=
-          ckcit->second.segment<3>(0) * ckcit->first(0, i * 3);
-    }
+    H += (ckcit->first.transpose() * ckcit->first);
+    g += ckcit->first.transpose() * ckcit->second;
   }
   // TEST : don't consider z axis for minimum acceleration cost
   // H(2,2) = 1e-6;
-- 
2.43.0


From 6ef829d7eb4f1983bfbd3233f36e683ddf0bdeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 25/26] fix: ComputeDiscretizedWaypoints samples curves of any
 degree

It always used five waypoints: a curve of lower degree was read out of
bounds, one of higher degree was truncated.
---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 0750880..432f009 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -12,7 +12,7 @@ std::vector<waypoint6_t> ComputeDiscretizedWaypoints(
   std::vector<waypoint6_t> res;
   for (int i = 0; i < numSteps + 1; ++i) {
     waypoint6_t w = initwp<waypoint6_t>();
-    for (int j = 0; j < 5; ++j) {
+    for (std::size_t j = 0; j < wps.size(); ++j) {
       double b = berns[j](i * dt);
       w.first += b * (wps[j].first);
       w.second += b * (wps[j].second);
-- 
2.43.0


From 716f1e8532b7cec5673918c874d45acad930146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 26/26] fix: confirm that glpk finds no feasible solution
 before reporting it

When the primal simplex stalls it works on a perturbed problem, and may end
with GLP_NOFEAS on a problem that has feasible points with a margin.  A second
call from the basis that was reached settles it.
---
 src/glpk-wrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 7272e6a..3cdbe8f 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -103,6 +103,12 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
+  if (res == GLP_NOFEAS) {
+    // when it stalls, the simplex works on a perturbed problem, and it may find
+    // that one infeasible: confirm from the basis that was reached
+    glp_simplex(lp, &opts);
+    res = glp_get_status(lp);
+  }
   if (res == GLP_OPT) {
     cost = glp_get_obj_val(
         lp);  // obtains a computed value of the objective function
-- 
2.43.0

