From f0467a3740ec2ec3a59c70883323e726228b68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 01/10] fix: a single turn connects two circles only if both
 turn to the same side

The *0pm/*pm0/*pmpm planners took case T whenever the two circles share
their center (or the goal lies on the start circle), even if one turns left
and the other one right. The goal was then missed, or reached with the wrong
curvature.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..0309443 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..6b192f3 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..9e613a7 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -503,7 +503,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..411fb53 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1565,7 +1565,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..a4089f5 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1565,7 +1565,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..7ca07db 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1599,7 +1599,7 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
-- 
2.43.0


From e77663c95e4b56bd18df98ac52327763657d43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 02/10] fix: compare headings modulo 2*pi

configuration_equal, configuration_aligned, configuration_on_hc_cc_circle and
state_equal compared twopified headings directly, so that 0 and -1e-16 were
regarded as different headings.
---
 src/hc_cc_state_space/configuration.cpp | 6 +++---
 src/hc_cc_state_space/hc_cc_circle.cpp  | 2 +-
 src/hc_cc_state_space/paths.cpp         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..1f7b3e2 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -58,17 +58,17 @@ double configuration_distance(const Configuration &q1, const Configuration &q2)
 
 bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
   {
     return false;
   }
   double angle = twopify(atan2(q2.y - q1.y, q2.x - q1.x));
-  return fabs(angle - q1.theta) <= get_epsilon();
+  return fabs(pify(angle - q1.theta)) <= get_epsilon();
 }
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
     return false;
diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 5d6b6a5..4a26d2b 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -334,7 +334,7 @@ bool configuration_on_hc_cc_circle(const HC_CC_Circle &c, const Configuration &q
     angle = angle - HALF_PI - c.mu;
   }
   angle = twopify(angle);
-  return fabs(q.theta - angle) < get_epsilon();
+  return fabs(pify(q.theta - angle)) < get_epsilon();
 }
 
 } // namespace steering
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..a3bce1e 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -264,7 +264,7 @@ bool state_equal(const State &state1, const State &state2)
 {
   if (fabs(state2.kappa - state1.kappa) > get_epsilon())
     return false;
-  if (fabs(twopify(state2.theta) - twopify(state1.theta)) > get_epsilon())
+  if (fabs(pify(state2.theta - state1.theta)) > get_epsilon())
     return false;
   if (point_distance(state1.x, state1.y, state2.x, state2.y) > get_epsilon())
     return false;
-- 
2.43.0


From 379da47ad6857b412b8e44464db4b806414024d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 03/10] fix: no spurious full turns on Dubins paths

An arc of length zero whose angle is rounded to slightly below zero was
wrapped to a full turn, e.g. a goal straight ahead of the start was reached
with an additional circle.
---
 src/dubins_state_space/dubins_state_space.cpp | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..62877f3 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -73,6 +73,13 @@ namespace /* helper */
 const double DUBINS_EPS = 1e-6;
 const double DUBINS_ZERO = -1e-9;
 
+// wraps an angle to [0, 2*pi), angles that miss a full turn only by round-off are no turn at all
+inline double turn_angle(double alpha)
+{
+  double v = twopify(alpha);
+  return (TWO_PI - v < .1 * DUBINS_EPS) ? 0.0 : v;
+}
+
 Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
 {
   double ca = cos(alpha), sa = sin(alpha), cb = cos(beta), sb = sin(beta);
@@ -80,9 +87,9 @@ Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(cb - ca, d + sa - sb);
-    double t = twopify(-alpha + theta);
+    double t = turn_angle(-alpha + theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(beta - theta);
+    double q = turn_angle(beta - theta);
     assert(fabs(p * cos(alpha + t) - sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -98,9 +105,9 @@ Dubins_State_Space::Dubins_Path dubinsRSR(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta);
+    double t = turn_angle(alpha - theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(-beta + theta);
+    double q = turn_angle(-beta + theta);
     assert(fabs(p * cos(alpha - t) + sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -117,8 +124,8 @@ Dubins_State_Space::Dubins_Path dubinsRSL(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(ca + cb, d - sa - sb) - atan2(2., p);
-    double t = twopify(alpha - theta);
-    double q = twopify(beta - theta);
+    double t = turn_angle(alpha - theta);
+    double q = turn_angle(beta - theta);
     assert(fabs(p * cos(alpha - t) - 2. * sin(alpha - t) + sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) + 2. * cos(alpha - t) - ca - cb) < DUBINS_EPS);
     assert(twopify(alpha - t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -135,8 +142,8 @@ Dubins_State_Space::Dubins_Path dubinsLSR(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(-ca - cb, d + sa + sb) - atan2(-2., p);
-    double t = twopify(-alpha + theta);
-    double q = twopify(-beta + theta);
+    double t = turn_angle(-alpha + theta);
+    double q = turn_angle(-beta + theta);
     assert(fabs(p * cos(alpha + t) + 2. * sin(alpha + t) - sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) - 2. * cos(alpha + t) + ca + cb) < DUBINS_EPS);
     assert(twopify(alpha + t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -153,8 +160,8 @@ Dubins_State_Space::Dubins_Path dubinsRLR(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta + .5 * p);
-    double q = twopify(alpha - beta - t + p);
+    double t = turn_angle(alpha - theta + .5 * p);
+    double q = turn_angle(alpha - beta - t + p);
     assert(fabs(2. * sin(alpha - t + p) - 2. * sin(alpha - t) - d + sa - sb) < DUBINS_EPS);
     assert(fabs(-2. * cos(alpha - t + p) + 2. * cos(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t + p - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -171,8 +178,8 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(-ca + cb, d + sa - sb);
-    double t = twopify(-alpha + theta + .5 * p);
-    double q = twopify(beta - alpha - t + p);
+    double t = turn_angle(-alpha + theta + .5 * p);
+    double q = turn_angle(beta - alpha - t + p);
     assert(fabs(-2. * sin(alpha + t - p) + 2. * sin(alpha + t) - d - sa + sb) < DUBINS_EPS);
     assert(fabs(2. * cos(alpha + t - p) - 2. * cos(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t - p + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -228,7 +235,7 @@ const Dubins_State_Space::Dubins_Path_Segment_Type Dubins_State_Space::dubins_pa
 Dubins_State_Space::Dubins_Path Dubins_State_Space::dubins(const State &state1, const State &state2) const
 {
   double dx = state2.x - state1.x, dy = state2.y - state1.y, th = atan2(dy, dx), d = sqrt(dx * dx + dy * dy) * kappa_;
-  double alpha = twopify(state1.theta - th), beta = twopify(state2.theta - th);
+  double alpha = turn_angle(state1.theta - th), beta = turn_angle(state2.theta - th);
   return steering::dubins(d, alpha, beta);
 }
 
-- 
2.43.0


From 72bb9a872437700544dc7b04f353a7d7dba788d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 04/10] fix: accept Reeds-Shepp words with segments of length
 zero despite round-off

The tolerance of 10 machine epsilons rejected words in which a segment vanishes
up to round-off, e.g. on goals straight ahead, so that a longer path was returned.
---
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..29421d4 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -71,7 +71,7 @@ namespace /* helper */
 {
 // The comments, variable names, etc. use the nomenclature from the Reeds & Shepp paper.
 const double RS_EPS = 1e-6;
-const double RS_ZERO = 10 * numeric_limits<double>::epsilon();
+const double RS_ZERO = 1e-9;
 
 inline void tauOmega(double u, double v, double xi, double eta, double phi, double &tau, double &omega)
 {
-- 
2.43.0


From d9313060aaed5e46d94ee001c1a6a9ec47dbff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 05/10] fix: initialize curvature and driving direction in
 interpolate

Dubins and Reeds-Shepp returned uninitialized members for t <= 0.
---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 62877f3..e2d04ea 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -432,6 +432,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 29421d4..7f83b8b 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From 56f2ef4545c35cb62410ee8fc76fd1c87036fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:25 +0000
Subject: [PATCH 06/10] fix: const queries of one planner do not share
 intermediate results

The distance and angle between two circles were stored in the planner, hence
concurrent calls of const member functions on one object raced and returned
wrong paths.
---
 src/hc_cc_state_space/cc00_dubins_state_space.cpp        | 3 ++-
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp   | 3 ++-
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 3 ++-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 3 ++-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 3 ++-
 src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp   | 3 ++-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 3 ++-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 3 ++-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 3 ++-
 9 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/hc_cc_state_space/cc00_dubins_state_space.cpp b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
index 0b23902..628c948 100644
--- a/src/hc_cc_state_space/cc00_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
@@ -336,7 +336,8 @@ CC_Dubins_Path *CC00_Dubins_State_Space::cc00_circles_dubins_path(const HC_CC_Ci
   HC_CC_Circle *cend[nb_cc_dubins_paths];
   pointer_array_init((void **)cend, nb_cc_dubins_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<CC00_Dubins> cc00_dubins_(new CC00_Dubins(*this->cc00_dubins_));
   cc00_dubins_->distance = center_distance(c1, c2);
   cc00_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..8ba97f2 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -1437,7 +1437,8 @@ HC_CC_RS_Path *CC00_Reeds_Shepp_State_Space::cc00_circles_rs_path(const HC_CC_Ci
   HC_CC_Circle *cend[nb_hc_cc_rs_paths];
   pointer_array_init((void **)cend, nb_hc_cc_rs_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<CC00_Reeds_Shepp> cc00_reeds_shepp_(new CC00_Reeds_Shepp(*this->cc00_reeds_shepp_));
   cc00_reeds_shepp_->distance = center_distance(c1, c2);
   cc00_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 0309443..e0ab7c2 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -364,7 +364,8 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
   HC_CC_Circle *cend[nb_cc_dubins_paths];
   pointer_array_init((void **)cend, nb_cc_dubins_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<CC0pm_Dubins> cc0pm_dubins_(new CC0pm_Dubins(*this->cc0pm_dubins_));
   cc0pm_dubins_->distance = center_distance(c1, c2);
   cc0pm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 6b192f3..ca713ce 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -364,7 +364,8 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
   HC_CC_Circle *cend[nb_cc_dubins_paths];
   pointer_array_init((void **)cend, nb_cc_dubins_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<CCpm0_Dubins> ccpm0_dubins_(new CCpm0_Dubins(*this->ccpm0_dubins_));
   ccpm0_dubins_->distance = center_distance(c1, c2);
   ccpm0_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 9e613a7..6097031 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -492,7 +492,8 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
   HC_CC_Circle *cend[nb_cc_dubins_paths];
   pointer_array_init((void **)cend, nb_cc_dubins_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<CCpmpm_Dubins> ccpmpm_dubins_(new CCpmpm_Dubins(*this->ccpmpm_dubins_));
   ccpmpm_dubins_->distance = center_distance(c1, c2);
   ccpmpm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..624f8f9 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -1522,7 +1522,8 @@ HC_CC_RS_Path *HC00_Reeds_Shepp_State_Space::hc00_circles_rs_path(const HC_CC_Ci
   HC_CC_Circle *cend[nb_hc_cc_rs_paths];
   pointer_array_init((void **)cend, nb_hc_cc_rs_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<HC00_Reeds_Shepp> hc00_reeds_shepp_(new HC00_Reeds_Shepp(*this->hc00_reeds_shepp_));
   hc00_reeds_shepp_->distance = center_distance(c1, c2);
   hc00_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 411fb53..54cd153 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1554,7 +1554,8 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
   HC_CC_Circle *cend[nb_hc_cc_rs_paths];
   pointer_array_init((void **)cend, nb_hc_cc_rs_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<HC0pm_Reeds_Shepp> hc0pm_reeds_shepp_(new HC0pm_Reeds_Shepp(*this->hc0pm_reeds_shepp_));
   hc0pm_reeds_shepp_->distance = center_distance(c1, c2);
   hc0pm_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index a4089f5..551c8bd 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1554,7 +1554,8 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
   HC_CC_Circle *cend[nb_hc_cc_rs_paths];
   pointer_array_init((void **)cend, nb_hc_cc_rs_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<HCpm0_Reeds_Shepp> hcpm0_reeds_shepp_(new HCpm0_Reeds_Shepp(*this->hcpm0_reeds_shepp_));
   hcpm0_reeds_shepp_->distance = center_distance(c1, c2);
   hcpm0_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 7ca07db..4287d1a 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1588,7 +1588,8 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
   HC_CC_Circle *cend[nb_hc_cc_rs_paths];
   pointer_array_init((void **)cend, nb_hc_cc_rs_paths);
 
-  // precomputations
+  // precomputations (on a copy, concurrent queries must not share them)
+  unique_ptr<HCpmpm_Reeds_Shepp> hcpmpm_reeds_shepp_(new HCpmpm_Reeds_Shepp(*this->hcpmpm_reeds_shepp_));
   hcpmpm_reeds_shepp_->distance = center_distance(c1, c2);
   hcpmpm_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
-- 
2.43.0


From e918086d125cc4fef5632432213c5fcbf915ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:58 +0000
Subject: [PATCH 07/10] fix: connect predicted states on different clothoids

CC_Dubins and HC_Reeds_Shepp replaced the initial and the final clothoid by
their difference whenever the predicted states coincide. This is correct only
if both controls describe the same clothoid; otherwise the path missed the
goal and could exceed the max. curvature (e.g. k=1, s=0.2, start (0,0,0,0),
goal = end of the clothoid with length 4: a straight line was returned). The
difference also has to flip the sign of the sharpness along with the driving
direction.
---
 .../cc_dubins_state_space.cpp                 | 32 ++++++++++++++++---
 .../hc_reeds_shepp_state_space.cpp            | 32 ++++++++++++++++---
 src/hc_cc_state_space/paths.cpp               |  3 +-
 3 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..6e71446 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,16 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        // both controls describe the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -166,8 +174,24 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        // both controls describe the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          cc_dubins_controls.push_back(control);
+        }
+        else
+        {
+          if (fabs(start_control.delta_s) > 0.0)
+          {
+            cc_dubins_controls.push_back(start_control);
+          }
+          if (fabs(end_control.delta_s) > 0.0)
+          {
+            reverse_control(end_control);
+            cc_dubins_controls.push_back(end_control);
+          }
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..bda09bc 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,16 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        // both controls describe the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -161,8 +169,24 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        // both controls describe the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          hc_rs_controls.push_back(control);
+        }
+        else
+        {
+          if (fabs(start_control.delta_s) > 0.0)
+          {
+            hc_rs_controls.push_back(start_control);
+          }
+          if (fabs(end_control.delta_s) > 0.0)
+          {
+            reverse_control(end_control);
+            hc_rs_controls.push_back(end_control);
+          }
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index a3bce1e..2868a42 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -284,7 +284,8 @@ Control subtract_control(const Control &control1, const Control &control2)
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  // the sign of the sharpness depends on the driving direction
+  control.sigma = sgn(control1.delta_s) * sgn(control.delta_s) * control1.sigma;
   return control;
 }
 
-- 
2.43.0


From b04713d6fc52ce51c20f2cf7f92d1c9a87209395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:40 +0000
Subject: [PATCH 08/10] fix: no spurious full turns on continuous and hybrid
 curvature paths

The circular arc of a regular turn that vanishes up to round-off was replaced
by a full circle, e.g. when a path is computed from a state at which two
segments of a previously computed path are joined.
---
 src/hc_cc_state_space/hc_cc_circle.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 4a26d2b..a93c527 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -135,11 +135,17 @@ double HC_CC_Circle::D1(double alpha) const
   return cos(alpha) * fresnel_c + sin(alpha) * fresnel_s;
 }
 
+/** \brief Circular deflection of a regular turn, where a full turn due to round-off is no turn at all */
+static inline double no_full_turn(double delta)
+{
+  return (TWO_PI - delta < 1e-7) ? 0.0 : delta;
+}
+
 double HC_CC_Circle::rs_circular_deflection(double delta) const
 {
   // regular rs-turn
   if (this->regular)
-    return delta;
+    return no_full_turn(delta);
   // irregular rs-turn
   else
     return (delta <= PI) ? delta : delta - TWO_PI;
@@ -160,9 +166,9 @@ double HC_CC_Circle::hc_circular_deflection(double delta) const
   if (this->regular)
   {
     if (delta < delta_min_twopified)
-      return TWO_PI + delta - delta_min_twopified;
+      return no_full_turn(TWO_PI + delta - delta_min_twopified);
     else
-      return delta - delta_min_twopified;
+      return no_full_turn(delta - delta_min_twopified);
   }
   // irregular hc-turn
   else
@@ -213,9 +219,9 @@ double HC_CC_Circle::cc_circular_deflection(double delta) const
   if (this->regular)
   {
     if (delta < two_delta_min_twopified)
-      return TWO_PI + delta - two_delta_min_twopified;
+      return no_full_turn(TWO_PI + delta - two_delta_min_twopified);
     else
-      return delta - two_delta_min_twopified;
+      return no_full_turn(delta - two_delta_min_twopified);
   }
   // irregular cc-turn
   else
-- 
2.43.0


From b1b76b8b887bca192d5f043aa075bd7870aab349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:50 +0000
Subject: [PATCH 09/10] fix: the CC-Dubins distance of a state to itself is
 zero

For a curvature between zero and max. curvature the predicted start and goal
states of identical states never coincide, so a loop was returned (e.g. k=1,
s=1, (0,0,0,0.5) to itself: 6.8).
---
 src/hc_cc_state_space/cc_dubins_state_space.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 6e71446..6e3201b 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -96,6 +96,10 @@ vector<pair<State, Control>> CC_Dubins_State_Space::predict_state(const State &s
 
 double CC_Dubins_State_Space::get_distance(const State &state1, const State &state2) const
 {
+  // no path required
+  if (state_equal(state1, state2))
+    return 0.0;
+
   vector<pair<State, Control>> start_states_controls = this->predict_state(state1, forwards_);
   vector<pair<State, Control>> end_states_controls = this->predict_state(state2, !forwards_);
   vector<double> distances;
@@ -156,6 +160,16 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
 
 vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const State &state2) const
 {
+  // no path required
+  if (state_equal(state1, state2))
+  {
+    Control control;
+    control.delta_s = 0.0;
+    control.kappa = state1.kappa;
+    control.sigma = 0.0;
+    return vector<Control>(1, control);
+  }
+
   vector<pair<State, Control>> start_states_controls = this->predict_state(state1, forwards_);
   vector<pair<State, Control>> end_states_controls = this->predict_state(state2, !forwards_);
   vector<pair<vector<Control>, double>> cc_dubins_controls_distance_pairs;
-- 
2.43.0


From 387f8805cf38112416538024a4f80041b9a65b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:21 +0000
Subject: [PATCH 10/10] fix: a Dubins turn without straight line is a single
 turn

The direction of a straight line of length zero is arbitrary, so that LSL
and RSR paths between states on the same turning circle turned a full
circle too far.
---
 src/dubins_state_space/dubins_state_space.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index e2d04ea..6f80bde 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -86,9 +86,12 @@ Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
   double tmp = 2. + d * d - 2. * (ca * cb + sa * sb - d * (sa - sb));
   if (tmp >= DUBINS_ZERO)
   {
+    double p = sqrt(max(tmp, 0.));
+    // a straight line of length zero has no direction: both arcs belong to the same turn
+    if (p < .1 * DUBINS_EPS)
+      return Dubins_State_Space::Dubins_Path(Dubins_State_Space::dubins_path_type[0], turn_angle(beta - alpha), 0., 0.);
     double theta = atan2(cb - ca, d + sa - sb);
     double t = turn_angle(-alpha + theta);
-    double p = sqrt(max(tmp, 0.));
     double q = turn_angle(beta - theta);
     assert(fabs(p * cos(alpha + t) - sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) + ca - cb) < DUBINS_EPS);
@@ -104,9 +107,12 @@ Dubins_State_Space::Dubins_Path dubinsRSR(double d, double alpha, double beta)
   double tmp = 2. + d * d - 2. * (ca * cb + sa * sb - d * (sb - sa));
   if (tmp >= DUBINS_ZERO)
   {
+    double p = sqrt(max(tmp, 0.));
+    // a straight line of length zero has no direction: both arcs belong to the same turn
+    if (p < .1 * DUBINS_EPS)
+      return Dubins_State_Space::Dubins_Path(Dubins_State_Space::dubins_path_type[1], turn_angle(alpha - beta), 0., 0.);
     double theta = atan2(ca - cb, d - sa + sb);
     double t = turn_angle(alpha - theta);
-    double p = sqrt(max(tmp, 0.));
     double q = turn_angle(-beta + theta);
     assert(fabs(p * cos(alpha - t) + sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) - ca + cb) < DUBINS_EPS);
-- 
2.43.0

