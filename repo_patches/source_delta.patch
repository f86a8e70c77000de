From b509cd7fc799f1f030eb1289755bd57ebb81738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:43 +0000
Subject: [PATCH 01/46] fix: count every pose clone in State::GetStateSize

The size counted the cameras that have clones instead of the clones, so ToVector
wrote past the end of the vector (or left trailing zeros) with two or more clones.
---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..ed8eb82 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From d22670777fa5f7e66b79573822139d4d1c370a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:43 +0000
Subject: [PATCH 02/46] fix: export biases of IMUs with intrinsic calibration
 only

State::ToVector skipped an IMU whose biases are calibrated but whose mounting is not,
shifting every later component of the exported vector.
---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index ed8eb82..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From f44e766ccc6a2d396d2a586924f98db34b74c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:43 +0000
Subject: [PATCH 03/46] fix: correct every camera by its own segment

operator+= on a camera map applied the first camera's correction to all cameras.
---
 src/ekf/types.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..1f291dc 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -198,6 +198,7 @@ std::map<unsigned int, CamState> & operator+=(
     l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
     l_cam_state[cam_id].ang_c_to_b =
       l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    idx += g_cam_extrinsic_state_size;
   }
 
   return l_cam_state;
-- 
2.43.0


From f6fba4a8f7d908407ec7daaf4c88586a9cefab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 04/46] fix: insert a registered covariance at the component's
 own index

States are ordered by id, but the covariance of a new sensor was inserted at the end
of its group, and that of a new fiducial behind the pose clones. Registering a lower id
after a higher one, or a fiducial once clones exist, gave components the uncertainty
of others.
---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..f6114f7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -262,13 +262,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -280,6 +274,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -298,17 +298,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -331,23 +334,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -365,14 +369,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From a5c594164d647f8b25bfb1d97ea8f235e7e41100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 05/46] fix: register the square root of the covariance in root
 form

With use_root_covariance the filter keeps a square root of the covariance, but the
covariance of a newly registered component was inserted as it is.
---
 src/ekf/ekf.cpp | 25 +++++++++++++++++--------
 src/ekf/ekf.hpp |  7 +++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f6114f7..ed6230f 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -276,8 +276,7 @@ void EKF::RegisterIMU(
 
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+    InsertCovariance(covariance.block(0, 0, imu_state.size, imu_state.size), imu_index);
   }
 
   std::stringstream log_msg;
@@ -308,8 +307,7 @@ void EKF::RegisterGPS(
 
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+    InsertCovariance(covariance.block(0, 0, gps_state.size, gps_state.size), gps_index);
   }
 
   std::stringstream log_msg;
@@ -348,8 +346,7 @@ void EKF::RegisterCamera(
 
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+    InsertCovariance(covariance.block(0, 0, cam_state.size, cam_state.size), cam_index);
   }
 
   std::stringstream log_msg;
@@ -377,8 +374,7 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+    InsertCovariance(covariance.block(0, 0, fid_state.size, fid_state.size), fid_index);
   }
 
   std::stringstream log_msg;
@@ -386,6 +382,19 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
 }
 
+void EKF::InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int index)
+{
+  if (m_use_root_covariance) {
+    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> solver(covariance);
+    Eigen::MatrixXd root_covariance =
+      solver.eigenvalues().cwiseMax(0.0).cwiseSqrt().asDiagonal() *
+      solver.eigenvectors().transpose();
+    m_cov = InsertInMatrix(root_covariance, m_cov, index, index);
+  } else {
+    m_cov = InsertInMatrix(covariance, m_cov, index, index);
+  }
+}
+
 Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const
 {
   auto in_rows = static_cast<unsigned int>(in_cov.rows());
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..e105ce0 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -200,6 +200,13 @@ public:
   ///
   void RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & covariance);
 
+  ///
+  /// @brief Insert the covariance of a new component, uncorrelated to all others
+  /// @param covariance Covariance of the new component
+  /// @param index State index of the new component
+  ///
+  void InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int index);
+
   ///
   /// @brief Augment the state covariance matrix
   /// @param in_cov Original state covariance matrix
-- 
2.43.0


From 608c7b644934a9e247d680d90d02e15e9f08269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 06/46] fix: keep the remaining covariance when a clone is
 dropped in root form

Removing the rows of a square root discards part of the covariance of the states
behind the removed one.
---
 src/ekf/ekf.cpp | 19 +++++++++++++++++--
 src/ekf/ekf.hpp |  7 +++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index ed6230f..be3e8db 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -395,6 +395,21 @@ void EKF::InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int inde
   }
 }
 
+void EKF::RemoveCovariance(unsigned int index, unsigned int size)
+{
+  if (m_use_root_covariance) {
+    // Only the columns of a root belong to a component, so its rows need to be kept
+    auto rows = static_cast<unsigned int>(m_cov.rows());
+    auto cols = static_cast<unsigned int>(m_cov.cols()) - size;
+    Eigen::MatrixXd root_cov(rows, cols);
+    root_cov.leftCols(index) = m_cov.leftCols(index);
+    root_cov.rightCols(cols - index) = m_cov.rightCols(cols - index);
+    m_cov = QR_r(root_cov.topRows(cols), root_cov.bottomRows(rows - cols));
+  } else {
+    m_cov = RemoveFromMatrix(m_cov, index, index, size);
+  }
+}
+
 Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const
 {
   auto in_rows = static_cast<unsigned int>(in_cov.rows());
@@ -508,7 +523,7 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      RemoveCovariance(aug_index, g_aug_state_size);
 
       RefreshIndices();
     }
@@ -568,7 +583,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      RemoveCovariance(aug_start, g_aug_state_size);
     }
 
     RefreshIndices();
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index e105ce0..fbc3e8d 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -207,6 +207,13 @@ public:
   ///
   void InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int index);
 
+  ///
+  /// @brief Remove part of the state from the covariance
+  /// @param index First state index to remove
+  /// @param size Number of states to remove
+  ///
+  void RemoveCovariance(unsigned int index, unsigned int size);
+
   ///
   /// @brief Augment the state covariance matrix
   /// @param in_cov Original state covariance matrix
-- 
2.43.0


From 90b0230fae31dd39cd3d428e19295fa2ce1f5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 07/46] fix: predict the root covariance as the standard
 covariance

For a root R with P = R'R the prediction is R F', which acts on the columns of the
body only. Multiplying the upper right block by F gave sensors and clones a wrong
cross-covariance to the body, and the process noise was not propagated.
---
 src/ekf/ekf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index be3e8db..bb8306a 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -157,13 +157,13 @@ void EKF::PredictModel(double local_time)
     unsigned int alt_size = m_state_size - g_body_state_size;
 
     if (m_use_root_covariance) {
-      m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-        m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
-
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
+      Eigen::MatrixXd root_noise = m_process_noise * std::sqrt(delta_time);
+      m_cov.leftCols<g_body_state_size>() =
+        (m_cov.leftCols<g_body_state_size>() * state_transition.transpose()).eval();
+      root_noise.leftCols<g_body_state_size>() =
+        (root_noise.leftCols<g_body_state_size>() * state_transition.transpose()).eval();
 
-      m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
+      m_cov = QR_r(m_cov, root_noise);
     } else {
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-- 
2.43.0


From bdb1d48d62cb765d309aa1fb8b4caa53a678f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 08/46] fix: apply the body process noise as soon as it is set

The process noise matrix was only assembled when a sensor or clone was added, so a
filter without sensors predicted without noise and later changes had no effect.
---
 src/ekf/ekf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index bb8306a..c49ed53 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -601,6 +601,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
 void EKF::SetBodyProcessNoise(const Eigen::VectorXd & process_noise)
 {
   m_body_process_noise = process_noise;
+  RefreshIndices();
 }
 
 AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double time)
-- 
2.43.0


From 260365d2417b35a1515e8c9dcd865e4e83a73d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 09/46] fix: look up the newest clone at the current time
 without dividing by zero

Interpolating from a clone made at the current time gave a NaN pose.
---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index c49ed53..5e45564 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -643,8 +643,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      double time_since_aug = m_current_time - m_state.aug_states[aug_key].back().time;
+      if (time_since_aug > 0.0) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) / time_since_aug;
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From 740262ef8442dfe5f547f7226010ba457ae83d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 10/46] fix: keep the sign of the heading of a planar alignment

The angle from the trace is never negative, so a GPS reference with a negative heading
was initialised with its mirror image.
---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..cd2d105 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -198,7 +198,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
-- 
2.43.0


From d2636b7a76c27e0e80278a165c0a32a630bbcaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 11/46] fix: place the GPS reference at the local origin for
 any heading

The alignment maps ENU to local coordinates, so the local origin in ENU is the
translation of its inverse, which only equals the negated translation at zero heading.
---
 src/ekf/ekf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 5e45564..f031ba5 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -824,8 +824,8 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
-      Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
+      Eigen::Vector3d delta_ref_enu = transformation.inverse().translation();
+      Eigen::Vector3d pos_e_in_g = enu_to_lla(delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
       m_debug_logger->Log(LogLevel::INFO, "GPS Updater Initialized");
-- 
2.43.0


From df497ac4ef487e887f1419bbe4e7538417a7c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 12/46] fix: measure alignment baselines from the points' own
 centroid

The baseline mixed the two point sets, so the angle error depended on how far the body
was from the local origin, and it was left uninitialised when no baseline was usable.
---
 src/utility/math_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index cd2d105..0463a80 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -243,7 +243,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
@@ -252,6 +252,7 @@ bool kabsch_2d(
   }
 
   pos_stddev = mean_standard_deviation(pos_errors);
+  ang_stddev = 0.0;
   if (sum_count != 0.0) {
     ang_stddev = std::sqrt(sum_square_slopes) / sum_count;
   }
-- 
2.43.0


From 679125650c3764a9b09297324d5e9634fd595f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:34 +0000
Subject: [PATCH 13/46] fix: differentiate the stationary measurement by the
 rotations it depends on

---
 src/ekf/update/imu_updater.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..b54ce95 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -164,13 +164,13 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   jacobian.block<3, 3>(
     0,
     9) = -SkewSymmetric(ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+    ang_i_to_b.inverse().toRotationMatrix() * QuaternionJacobian(ang_b_to_l);
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
-    );
+    ) * QuaternionJacobian(ang_i_to_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From c361b27078ae08a19b7bde2761e7f21f092dbabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:15 +0000
Subject: [PATCH 14/46] fix: detect motion with the covariance when it is kept
 in root form

---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index b54ce95..8e3ced7 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd covariance = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    covariance = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * covariance * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From fd3aad8696f62455135b30e84c4b62c315b92db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 15/46] fix: predict IMU measurements in the body frame

---
 src/ekf/update/imu_updater.cpp | 73 +++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 8e3ced7..d1a3030 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -307,30 +307,27 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   return true;
 }
 
-/// TODO: The frames are not correct here
 Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Vector3d acc_bias = ekf.m_state.imu_states[m_id].acc_bias;
   Eigen::Vector3d omg_bias = ekf.m_state.imu_states[m_id].omg_bias;
-  Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Quaterniond ang_l_to_b = ekf.m_state.body_state.ang_b_to_l.inverse();
 
-  Eigen::VectorXd predicted_measurement(6);
+  // Body motion in the body frame
+  Eigen::Vector3d body_acc = ang_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d body_omg = ang_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d body_alp = ang_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
 
-  Eigen::Vector3d imu_acc_b =
-    ekf.m_state.body_state.acc_b_in_l +
-    ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
-    ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
+  Eigen::VectorXd predicted_measurement(6);
 
-  Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d imu_acc_b = body_acc + body_alp.cross(pos_i_in_b) +
+    body_omg.cross(body_omg.cross(pos_i_in_b));
 
   // Rotate measurements in place
   predicted_measurement.segment<3>(0) = acc_bias + ang_i_to_b.inverse() * imu_acc_b;
-  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * imu_omg_b;
+  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * body_omg;
 
   return predicted_measurement;
 }
@@ -340,51 +337,55 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Matrix3d rot_b_to_i = ang_i_to_b.inverse().toRotationMatrix();
+  Eigen::Matrix3d rot_l_to_b = ang_b_to_l.inverse().toRotationMatrix();
+
+  // Body motion in the body frame
+  Eigen::Vector3d body_acc = rot_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d body_omg = rot_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d body_alp = rot_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
 
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(6, ekf.GetStateSize());
 
   // Body Acceleration
-  measurement_jacobian.block<3, 3>(0, 6) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(0, 6) = rot_b_to_i * rot_l_to_b;
+
+  // Body Orientation
+  Eigen::Matrix3d acc_by_omg =
+    SkewSymmetric(body_omg) * SkewSymmetric(pos_i_in_b).transpose() +
+    SkewSymmetric(body_omg.cross(pos_i_in_b)).transpose();
+  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
+    SkewSymmetric(body_acc) - SkewSymmetric(pos_i_in_b) * SkewSymmetric(body_alp) +
+    acc_by_omg * SkewSymmetric(body_omg)
+    ) * QuaternionJacobian(ang_b_to_l);
+  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i * SkewSymmetric(body_omg) *
+    QuaternionJacobian(ang_b_to_l);
 
   // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(0, 12) = ang_i_to_b.inverse().toRotationMatrix() * (
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
-    SkewSymmetric(pos_i_in_b).transpose() +
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)).transpose()
-  );
+  measurement_jacobian.block<3, 3>(0, 12) = rot_b_to_i * acc_by_omg * rot_l_to_b;
 
   // Body Angular Acceleration
-  measurement_jacobian.block<3, 3>(0, 15) = -ang_i_to_b.inverse().toRotationMatrix() *
-    SkewSymmetric(pos_i_in_b);
+  measurement_jacobian.block<3, 3>(0, 15) = -rot_b_to_i * SkewSymmetric(pos_i_in_b) * rot_l_to_b;
 
   // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(3, 12) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(3, 12) = rot_b_to_i * rot_l_to_b;
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
-    Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
-
 
     // IMU Positional Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) =
-      ang_i_to_b.inverse().toRotationMatrix() * (SkewSymmetric(ang_acc_b_in_l) +
-      SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(ang_vel_b_in_l)
-      );
+      rot_b_to_i * (SkewSymmetric(body_alp) + SkewSymmetric(body_omg) * SkewSymmetric(body_omg));
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * (ang_acc_b_in_l.cross(pos_i_in_b) +
-      ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(pos_i_in_b)) +
-      ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l
-      )
-    );
+      rot_b_to_i * (body_alp.cross(pos_i_in_b) + body_omg.cross(body_omg.cross(pos_i_in_b)) +
+      body_acc)
+      ) * QuaternionJacobian(ang_i_to_b);
 
     // IMU Angular Offset
-    measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l);
+    measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) =
+      SkewSymmetric(rot_b_to_i * body_omg) * QuaternionJacobian(ang_i_to_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 6975aa931a981a73247c351398687df6de157f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:03 +0000
Subject: [PATCH 16/46] fix: correct board detections towards the detected
 orientation

---
 src/ekf/update/fiducial_updater.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..8bcc152 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -88,7 +88,6 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
-  Eigen::Matrix3d rot_f_to_l = m_ang_f_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = ang_b_to_l.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_l_to_c = rot_b_to_c * rot_l_to_b;
 
@@ -101,7 +100,7 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
     SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
     QuaternionJacobian(ang_b_to_l).transpose();
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l *
+  jacobian.block<3, 3>(3, 9) = -rot_l_to_c *
     QuaternionJacobian(ang_b_to_l).transpose();
 
   /// @todo Test camera calibration jacobians
@@ -114,13 +113,14 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
       QuaternionJacobian(m_ang_c_to_b).transpose();
 
     jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose() * rot_l_to_b * rot_f_to_l;
+      QuaternionJacobian(m_ang_c_to_b).transpose();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    jacobian.block<3, 3>(0, fid_index + 0) = Eigen::Matrix3d::Identity();
-    jacobian.block<3, 3>(3, fid_index + 3) = Eigen::Matrix3d::Identity();
+    jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c *
+      QuaternionJacobian(m_ang_f_to_l).transpose();
   }
 
   return jacobian;
@@ -168,7 +168,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From 5521d55a1d3892575d40119ce321cf94e939c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:22 +0000
Subject: [PATCH 17/46] fix: project feature measurements onto the left
 nullspace

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 0463a80..9cb09d3 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From 689e9a559388f28035db1815e41176235302d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 18/46] fix: keep all information when compressing
 rank-deficient measurements

---
 src/utility/math_helper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 9cb09d3..d648b61 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -134,8 +134,11 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Keep every row up to the last non-zero one after compression
+    unsigned int rows = 0;
+    for (unsigned int i = 0; i < m_rows; ++i) {
+      if ((jacobian.row(i).array().abs() > 1e-9).any()) {rows = i + 1;}
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 3e1ea2e4e502a5f64555d5e10326d6d0f90aaa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:09 +0000
Subject: [PATCH 19/46] fix: limit the log rate from the first row on when it
 is at time zero

---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..30d6d33 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_time_initialized) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_time_initialized = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..e2e8b36 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_time_initialized{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From d145f15e47bdd1fdd1d7479bfbdc8050fc69eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:06 +0000
Subject: [PATCH 20/46] fix: log variances in both covariance forms

---
 src/ekf/ekf.cpp                     | 13 +++++++++----
 src/ekf/ekf.hpp                     |  8 ++++++++
 src/ekf/update/fiducial_updater.cpp | 14 ++------------
 src/ekf/update/gps_updater.cpp      |  7 +------
 src/ekf/update/imu_updater.cpp      | 13 +++----------
 src/ekf/update/msckf_updater.cpp    |  7 +------
 6 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f031ba5..abf367a 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -98,10 +98,7 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
 {
   if (m_data_log_rate != 0.0) {
     std::stringstream msg;
-    Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
-    if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
-    }
+    Eigen::VectorXd body_cov = GetVariances(0, g_body_state_size);
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
     msg << VectorToCommaString(m_state.body_state.vel_b_in_l);
@@ -887,6 +884,14 @@ double EKF::GetImuNoiseScaleFactor() const
   return m_imu_noise_scale_factor;
 }
 
+Eigen::VectorXd EKF::GetVariances(unsigned int index, unsigned int size) const
+{
+  if (m_use_root_covariance) {
+    return m_cov.middleCols(index, size).colwise().squaredNorm().transpose();
+  }
+  return m_cov.diagonal().segment(index, size);
+}
+
 bool EKF::GetUseRootCovariance() const
 {
   return m_use_root_covariance;
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index fbc3e8d..d72797c 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -383,6 +383,14 @@ public:
   ///
   double GetImuNoiseScaleFactor() const;
 
+  ///
+  /// @brief Getter for the variances of part of the state, for either form of the covariance
+  /// @param index Index of the first state
+  /// @param size Number of states
+  /// @return Variances
+  ///
+  Eigen::VectorXd GetVariances(unsigned int index, unsigned int size) const;
+
   ///
   /// @brief Getter for use root covariance flag
   /// @return Use root covariance flag
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 8bcc152..c207903 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -197,21 +197,11 @@ void FiducialUpdater::UpdateEKF(
     msg << VectorToCommaString(ekf.m_state.fid_states[m_id].pos_f_in_l);
     msg << QuaternionToCommaString(ekf.m_state.fid_states[m_id].ang_f_to_l);
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariances(fid_index, g_fid_extrinsic_state_size));
   }
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariances(cam_index, g_cam_extrinsic_state_size));
   }
   msg << "," << t_execution.count();
   m_fiducial_logger.RateLimitedLog(msg.str(), local_time);
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..6655ec1 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -135,12 +135,7 @@ void GpsUpdater::UpdateEKF(
   if (m_is_extrinsic) {
     msg << VectorToCommaString(ekf.m_state.gps_states[m_id].pos_a_in_b);
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariances(gps_index, g_gps_extrinsic_state_size));
   }
   msg << VectorToCommaString(residual);
   msg << "," << t_execution.count();
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index d1a3030..88810c2 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -137,12 +137,7 @@ void ImuUpdater::UpdateEKF(
   if (m_is_extrinsic || m_is_intrinsic) {
     unsigned int imu_index = ekf.m_state.imu_states[m_id].index;
     unsigned int imu_size = ekf.m_state.imu_states[m_id].size;
-    Eigen::VectorXd cov_diag =
-      ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariances(imu_index, imu_size));
   }
   msg << VectorToCommaString(acceleration);
   msg << VectorToCommaString(angular_rate);
@@ -281,14 +276,12 @@ bool ImuUpdater::ZeroAccelerationUpdate(
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    msg << VectorToCommaString(ekf.GetVariances(index_extrinsic, g_imu_extrinsic_state_size));
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
-    Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    msg << VectorToCommaString(ekf.GetVariances(index_intrinsic, g_imu_intrinsic_state_size));
   }
 
   msg << VectorToCommaString(acceleration);
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..15436e3 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -410,12 +410,7 @@ void MsckfUpdater::UpdateEKF(
   msg << VectorToCommaString(ekf.m_state.cam_states[m_id].pos_c_in_b);
   msg << QuaternionToCommaString(ekf.m_state.cam_states[m_id].ang_c_to_b);
   if (m_is_cam_extrinsic) {
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariances(cam_index, g_cam_extrinsic_state_size));
   }
   msg << "," << std::to_string(feature_tracks.size());
   msg << "," << t_execution.count();
-- 
2.43.0


From 31a002d5c4483fa4fd83b29c3f67830b26841711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 21/46] fix: StdToEigVec converts vectors of any length

The assertion on a length of three aborts the simulation for every configuration
with 6- or 12-element variance vectors.
---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From 7cf0142ddedc62429d41967bcafb24f69c062d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 22/46] fix: Announce a log level change only when INFO
 messages are enabled

The comparison was inverted: the notice was printed at levels that disable INFO
messages and suppressed between levels that enable them.
---
 src/infrastructure/sim/sim_debug_logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infrastructure/sim/sim_debug_logger.cpp b/src/infrastructure/sim/sim_debug_logger.cpp
index 8fa839c..82f6512 100644
--- a/src/infrastructure/sim/sim_debug_logger.cpp
+++ b/src/infrastructure/sim/sim_debug_logger.cpp
@@ -24,7 +24,7 @@
 
 void DebugLogger::SetLogLevel(LogLevel level)
 {
-  if ((m_log_level <= LogLevel::INFO) || (level <= LogLevel::INFO)) {
+  if ((m_log_level >= LogLevel::INFO) || (level >= LogLevel::INFO)) {
     std::cout << "[" <<
       m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(LogLevel::INFO)
       ] << "]: " <<
@@ -38,8 +38,8 @@ void DebugLogger::SetLogLevel(LogLevel level)
 
 void DebugLogger::SetLogLevel(unsigned int level)
 {
-  if ((m_log_level <= LogLevel::INFO) ||
-    (static_cast<LogLevel>(level) <= LogLevel::INFO))
+  if ((m_log_level >= LogLevel::INFO) ||
+    (static_cast<LogLevel>(level) >= LogLevel::INFO))
   {
     std::cout << "[" <<
       m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(LogLevel::INFO)
-- 
2.43.0


From 3d26ec92085d4689ef45dae1aa8ebd5ee2d0facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 23/46] fix: use the bias variances for an IMU with intrinsic
 calibration only

---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..018425e 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.segment<6>(6).asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From 124bc28676977d43cb94e50f9b43a00d329a2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 24/46] fix: hold the initial orientation of the cyclic
 trajectory while stationary

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From a0045958ef3f552d8b0ee716b87a409d0721f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 25/46] fix: hold the first pose of the spline trajectory while
 stationary

---
 src/infrastructure/sim/truth_engine_spline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index f639db2..d276c6c 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -28,10 +28,10 @@ Eigen::Vector3d TruthEngineSpline::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
+  if (relative_time > m_max_time || IsSplineInvalid(m_pos_spline)) {
     body_pos = Eigen::Vector3d::Zero(3);
   } else {
-    body_pos = m_pos_spline(relative_time / (m_max_time - m_stationary_time));
+    body_pos = m_pos_spline(std::max(relative_time, 0.0) / (m_max_time - m_stationary_time));
   }
   return body_pos;
 }
@@ -74,10 +74,10 @@ Eigen::Quaterniond TruthEngineSpline::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
+  if (relative_time > m_max_time || IsSplineInvalid(m_ang_spline)) {
     body_ang_pos = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
   } else {
-    double spline_param = relative_time / (m_max_time - m_stationary_time);
+    double spline_param = std::max(relative_time, 0.0) / (m_max_time - m_stationary_time);
     Eigen::Vector3d euler_angles = m_ang_spline(spline_param);
 
     Eigen::Quaterniond angular_position = EigVecToQuat(euler_angles);
-- 
2.43.0


From df0a7637cc152f3888e64079888aabbc932e3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 26/46] fix: make the cyclic angular acceleration the
 derivative of the angular rate

---
 .../sim/truth_engine_cyclic.cpp               | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..b1a1ad7 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -186,9 +186,30 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
     dd_rpy[2] = m_ang_amplitude * 2 * M_PI * M_PI * m_ang_frequency[2] *
       m_ang_frequency[2] * std::cos(m_ang_frequency[2] * 2 * M_PI * relative_time);
 
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    // Time derivative of the Euler derivative transform
+    double s_r = std::sin(rpy[0]);
+    double c_r = std::cos(rpy[0]);
+    double s_p = std::sin(rpy[1]);
+    double c_p = std::cos(rpy[1]);
+    Eigen::Matrix3d d_transform = Eigen::Matrix3d::Zero();
+    d_transform(0, 2) = -c_p * d_rpy[1];
+    d_transform(1, 1) = -s_r * d_rpy[0];
+    d_transform(1, 2) = c_r * c_p * d_rpy[0] - s_r * s_p * d_rpy[1];
+    d_transform(2, 1) = -c_r * d_rpy[0];
+    d_transform(2, 2) = -s_r * c_p * d_rpy[0] - c_r * s_p * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 51df18de6b2d099a9584c72a0a66d542ad2b911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 27/46] fix: keep the smoother trajectory within its samples at
 the end

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..cebd311 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -31,6 +31,9 @@ Eigen::Vector3d TruthEngineSmoother::GetInterpolatedValue(
   double whole;
   double alpha = std::modf(time * m_rate, &whole);
   auto index = static_cast<unsigned int>(whole);
+  if (index + 1 >= values.size()) {
+    return values.back();
+  }
   return values[index] * (1 - alpha) + values[index + 1] * alpha;
 }
 
-- 
2.43.0


From dd8df7527c94e2cf5de9958acaf9769fad992dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 28/46] fix: update only on a valid board pose

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..07e61f4 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -165,19 +165,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 6b2df6a405bbe0ef0183811798957d00504de29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 29/46] fix: detect grid boards by their marker ids

---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 07e61f4..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


From eed63af0b8bf218a190e3165117bef31f54f2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:51 +0000
Subject: [PATCH 30/46] fix: triangulate features whose true position is not
 known

---
 src/ekf/types.hpp                | 5 ++++-
 src/ekf/update/msckf_updater.cpp | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ekf/types.hpp b/src/ekf/types.hpp
index fbb7f43..6bbb71c 100644
--- a/src/ekf/types.hpp
+++ b/src/ekf/types.hpp
@@ -18,6 +18,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <limits>
 #include <map>
 #include <vector>
 
@@ -290,7 +291,9 @@ typedef struct FeatureTrack
 {
   std::vector<FeaturePoint> track;        ///< @brief Vector of tracked feature keypoints
   /// @todo: Remove true feature position once MSCKF complete
-  Eigen::Vector3d true_feature_position;  ///< @brief True feature position (sim only)
+  /// @brief True feature position (sim only, NaN when unknown)
+  Eigen::Vector3d true_feature_position{Eigen::Vector3d::Constant(
+      std::numeric_limits<double>::quiet_NaN())};
 } FeatureTrack;
 
 ///
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 15436e3..6429c66 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -76,7 +76,9 @@ bool MsckfUpdater::TriangulateFeature(
 )
 {
   /// @todo: Need to continue debugging the triangulated features
-  if (m_use_true_triangulation) {
+  bool use_true_position =
+    m_use_true_triangulation && feature_track.true_feature_position.allFinite();
+  if (use_true_position) {
     pos_f_in_l = feature_track.true_feature_position;
   }
 
@@ -135,7 +137,7 @@ bool MsckfUpdater::TriangulateFeature(
     m_logger->Log(LogLevel::INFO, err_msg.str());
     pos_f_in_l_tri = Eigen::Vector3d::Zero();
     /// @todo: Add input flag
-    if (m_use_true_triangulation) {
+    if (use_true_position) {
       success = true;
     } else {
       pos_f_in_l = pos_f_in_l_tri;
@@ -149,7 +151,7 @@ bool MsckfUpdater::TriangulateFeature(
     msg << "," << std::to_string(feature_track.track[0].key_point.class_id);
     msg << VectorToCommaString(pos_f_in_l_tri);
     m_triangulation_logger.RateLimitedLog(msg.str(), local_time);
-    if (!m_use_true_triangulation) {
+    if (!use_true_position) {
       pos_f_in_l = pos_f_in_l_tri;
     }
     success = true;
-- 
2.43.0


From 53fb041a090e31c521679ce03e117abe5faff1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 31/46] fix: deliver finished feature tracks when an image has
 no features

---
 src/trackers/feature_tracker.cpp | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index cb7d4be..c1c4d25 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -240,28 +240,28 @@ void FeatureTracker::Track(
           static_cast<unsigned int>(match.trainIdx)].class_id)].
       push_back(feat_point);
     }
+  }
 
-    // Update MSCKF on features no longer detected
-    FeatureTracks feature_tracks;
-    for (auto it = m_feature_points_map.cbegin(); it != m_feature_points_map.cend(); ) {
-      const auto & feature_points = it->second;
-      if ((feature_points.back().frame_id < frame_id) ||
-        (feature_points.size() >= m_max_track_length))
-      {
-        // This feature does not exist in the latest frame
-        if (feature_points.size() >= m_min_track_length) {
-          FeatureTrack feature_track;
-          feature_track.track = feature_points;
-          feature_tracks.push_back(feature_track);
-        }
-        it = m_feature_points_map.erase(it);
-      } else {
-        ++it;
+  // Update MSCKF on features no longer detected
+  FeatureTracks feature_tracks;
+  for (auto it = m_feature_points_map.cbegin(); it != m_feature_points_map.cend(); ) {
+    const auto & feature_points = it->second;
+    if ((feature_points.back().frame_id < frame_id) ||
+      (feature_points.size() >= m_max_track_length))
+    {
+      // This feature does not exist in the latest frame
+      if (feature_points.size() >= m_min_track_length) {
+        FeatureTrack feature_track;
+        feature_track.track = feature_points;
+        feature_tracks.push_back(feature_track);
       }
+      it = m_feature_points_map.erase(it);
+    } else {
+      ++it;
     }
-    if (!feature_tracks.empty()) {
-      m_msckf_updater.UpdateEKF(*m_ekf, time, feature_tracks, m_px_error);
-    }
+  }
+  if (!feature_tracks.empty()) {
+    m_msckf_updater.UpdateEKF(*m_ekf, time, feature_tracks, m_px_error);
   }
 
   m_prev_frame_id = frame_id;
-- 
2.43.0


From 466bef3f8e760f26bd64c9773eb4b714ef8e4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 32/46] fix: keep feature matches when the image stands still

---
 src/trackers/feature_tracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index c1c4d25..ead8266 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -380,7 +380,7 @@ void FeatureTracker::DistanceTest(
     double dist = std::sqrt(
       std::pow(point_curr.x - point_prev.x, 2) +
       std::pow(point_curr.y - point_prev.y, 2));
-    if (dist < dist_mean * 3.0) {
+    if (dist <= dist_mean * 3.0) {
       matches_out.push_back(matches_in[i]);
     }
   }
-- 
2.43.0


From 5db4d714fc732d1d434bcfe79536431c8c10e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:52 +0000
Subject: [PATCH 33/46] fix: report down-sampled features in the coordinates of
 the camera image

---
 src/trackers/feature_tracker.cpp | 19 +++++++++++++++++--
 src/trackers/feature_tracker.hpp |  4 ++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index ead8266..61c3679 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -228,14 +228,16 @@ void FeatureTracker::Track(
       if (m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id == -1) {
         m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id = GenerateFeatureID();
         FeaturePoint feat_point {m_prev_frame_id, m_prev_frame_time,
-          m_prev_key_points[static_cast<unsigned int>(match.queryIdx)]};
+          UpSample(m_prev_key_points[static_cast<unsigned int>(match.queryIdx)],
+            img_in.size(), img_down.size())};
         m_feature_points_map[static_cast<unsigned int>(m_prev_key_points[
             static_cast<unsigned int>(match.queryIdx)].class_id)].push_back(feat_point);
       }
       curr_key_points[static_cast<unsigned int>(match.trainIdx)].class_id =
         m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id;
       FeaturePoint feat_point {frame_id, m_ekf->GetCurrentTime(),
-        curr_key_points[static_cast<unsigned int>(match.trainIdx)]};
+        UpSample(curr_key_points[static_cast<unsigned int>(match.trainIdx)],
+          img_in.size(), img_down.size())};
       m_feature_points_map[static_cast<unsigned int>(curr_key_points[
           static_cast<unsigned int>(match.trainIdx)].class_id)].
       push_back(feat_point);
@@ -270,6 +272,19 @@ void FeatureTracker::Track(
   m_prev_descriptors = curr_descriptors;
 }
 
+cv::KeyPoint FeatureTracker::UpSample(
+  cv::KeyPoint key_point, const cv::Size & size_in, const cv::Size & size_down)
+{
+  if (size_in != size_down) {
+    // Pixel centers are at integer coordinates
+    key_point.pt.x = (key_point.pt.x + 0.5F) * static_cast<float>(size_in.width) /
+      static_cast<float>(size_down.width) - 0.5F;
+    key_point.pt.y = (key_point.pt.y + 0.5F) * static_cast<float>(size_in.height) /
+      static_cast<float>(size_down.height) - 0.5F;
+  }
+  return key_point;
+}
+
 int FeatureTracker::GenerateFeatureID()
 {
   static int featureID = 0;
diff --git a/src/trackers/feature_tracker.hpp b/src/trackers/feature_tracker.hpp
index 235537b..99d652a 100644
--- a/src/trackers/feature_tracker.hpp
+++ b/src/trackers/feature_tracker.hpp
@@ -183,6 +183,10 @@ private:
 
   std::map<unsigned int, std::vector<FeaturePoint>> m_feature_points_map;
 
+  /// @brief Coordinates in the input image of a key point found in the down sampled image
+  static cv::KeyPoint UpSample(
+    cv::KeyPoint key_point, const cv::Size & size_in, const cv::Size & size_down);
+
   static int GenerateFeatureID();
 
   double m_px_error;
-- 
2.43.0


From 6ca25b51027da6c67d5e4d9473768e2cd96ebc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:57 +0000
Subject: [PATCH 34/46] fix: images with a single feature aborted the feature
 tracker

---
 src/trackers/feature_tracker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index 61c3679..345349d 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -198,7 +198,8 @@ void FeatureTracker::Track(
 
   m_logger->Log(LogLevel::DEBUG, "Called Tracker for frame ID: " + std::to_string(frame_id));
 
-  if (m_prev_descriptors.rows > 0 && curr_descriptors.rows > 0) {
+  // The ratio test needs two neighbors to select from in both images
+  if (m_prev_descriptors.rows > 1 && curr_descriptors.rows > 1) {
     std::vector<std::vector<cv::DMatch>> matches_forward;
     std::vector<std::vector<cv::DMatch>> matches_backward;
 
-- 
2.43.0


From 1d40adfd419d94689be0c4e4cdfe2222da2bb207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:31 +0000
Subject: [PATCH 35/46] fix: read the documented type and track lengths of a
 fiducial in the simulation

The board type was never read from the configuration, so an uninitialised
value decided which kind of board the tracker made, and a board of the other
kind could end the program in an OpenCV assertion.
---
 src/application/sim/simulation.cpp | 4 ++++
 src/trackers/fiducial_tracker.hpp  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index a3fa3de..5b35d8f 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -363,6 +363,8 @@ int main(int argc, char * argv[])
     FiducialTracker::Parameters fiducial_params;
     LoadTrackerParams(
       fiducial_params, fiducials[i], log_directory, ekf, debug_logger);
+    fiducial_params.detector_type =
+      static_cast<FiducialType>(fid_node["fiducial_type"].as<unsigned int>(0));
     fiducial_params.pos_f_in_l =
       StdToEigVec(fid_node["pos_f_in_l"].as<std::vector<double>>(def_vec));
     fiducial_params.ang_f_to_l =
@@ -373,6 +375,8 @@ int main(int argc, char * argv[])
     fiducial_params.square_length = fid_node["square_length"].as<double>(0.0);
     fiducial_params.marker_length = fid_node["marker_length"].as<double>(0.0);
     fiducial_params.id = fid_node["id"].as<unsigned int>(0);
+    fiducial_params.min_track_length = fid_node["min_track_length"].as<unsigned int>(2);
+    fiducial_params.max_track_length = fid_node["max_track_length"].as<unsigned int>(20);
     fiducial_params.is_extrinsic = fid_node["is_extrinsic"].as<bool>(false);
     fiducial_params.ekf = ekf;
     max_track_length = std::max(max_track_length, fiducial_params.max_track_length);
diff --git a/src/trackers/fiducial_tracker.hpp b/src/trackers/fiducial_tracker.hpp
index 524f7cd..3f1a318 100644
--- a/src/trackers/fiducial_tracker.hpp
+++ b/src/trackers/fiducial_tracker.hpp
@@ -52,7 +52,7 @@ public:
   ///
   typedef struct Parameters : public Tracker::Parameters
   {
-    FiducialType detector_type;                     ///< @brief Detector type
+    FiducialType detector_type{FiducialType::ARUCO_BOARD};  ///< @brief Detector type
     unsigned int predefined_dict{0};                ///< @brief Predefined dictionary
     unsigned int squares_x {1};                     ///< @brief Number of squares in the x direction
     unsigned int squares_y {1};                     ///< @brief Number of squares in the y direction
-- 
2.43.0


From 5f9f85574129bcbaaf9c8b3dcffb6c1415ad1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:17 +0000
Subject: [PATCH 36/46] fix: ignore feature tracks that arrive before any
 augmented state

With the PRIMARY policy the features of a secondary camera can arrive before
the first frame of the primary camera (and with NONE there never is an
augmented state): the pose lookup then read from an empty list.
---
 src/ekf/update/msckf_updater.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 6429c66..3805340 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -266,6 +266,11 @@ void MsckfUpdater::UpdateEKF(
     return;
   }
 
+  if (ekf.GetAugStateSize() == 0) {
+    m_logger->Log(LogLevel::WARN, "MSCKF Update without augmented states");
+    return;
+  }
+
   if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
     m_intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
     m_pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
-- 
2.43.0


From 278073b099f3b617b38c133a35fd4cd86ba26d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 37/46] fix: Evaluate sensors whose id has more than one digit

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 4c2196d..7379760 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -189,7 +189,7 @@ def find_and_read_data_frames(directories, prefix):
     data_frame_sets = collections.defaultdict(list)
     for directory in directories:
         file_paths_id = glob.glob(os.path.join(directory, prefix + '.csv'))
-        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9].csv')))
+        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9]*.csv')))
         for file_path in file_paths_id:
             file_name = os.path.basename(file_path)
             df = pd.read_csv(file_path).dropna()
-- 
2.43.0


From 9bf92cfbd32b6b17d2faed7ebb19ff7bef1998b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 38/46] fix: fill the node's whole process noise, each part in
 its place

---
 src/application/ros/node/ekf_cal_node.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index b912515..8f51c6b 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -64,7 +64,10 @@ EkfCalNode::EkfCalNode()
   declare_parameter("augmenting_ang_error", 0.0);
   declare_parameter("process_noise.pos", 1.0e-2);
   declare_parameter("process_noise.vel", 1.0e-2);
+  declare_parameter("process_noise.acc", 1.0e-2);
   declare_parameter("process_noise.ang_pos", 1.0e-2);
+  declare_parameter("process_noise.ang_vel", 1.0e-2);
+  declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
   declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
@@ -623,12 +626,18 @@ Eigen::VectorXd EkfCalNode::LoadProcessNoise()
 {
   double pos_noise = get_parameter("process_noise.pos").as_double();
   double vel_noise = get_parameter("process_noise.vel").as_double();
+  double acc_noise = get_parameter("process_noise.acc").as_double();
   double ang_pos_noise = get_parameter("process_noise.ang_pos").as_double();
+  double ang_vel_noise = get_parameter("process_noise.ang_vel").as_double();
+  double ang_acc_noise = get_parameter("process_noise.ang_acc").as_double();
 
   Eigen::VectorXd process_noise(g_body_state_size);
   process_noise.segment<3>(0) = Eigen::Vector3d::Ones() * pos_noise;
   process_noise.segment<3>(3) = Eigen::Vector3d::Ones() * vel_noise;
-  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * acc_noise;
+  process_noise.segment<3>(9) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(12) = Eigen::Vector3d::Ones() * ang_vel_noise;
+  process_noise.segment<3>(15) = Eigen::Vector3d::Ones() * ang_acc_noise;
 
   return process_noise;
 }
-- 
2.43.0


From 3370b4daa3f13b8e659250b5bcf8888d4bd109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 39/46] fix: take a GPS message's position covariance over from
 ROS

---
 src/sensors/ros/ros_gps_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sensors/ros/ros_gps_message.cpp b/src/sensors/ros/ros_gps_message.cpp
index de33eae..f8640c9 100644
--- a/src/sensors/ros/ros_gps_message.cpp
+++ b/src/sensors/ros/ros_gps_message.cpp
@@ -24,5 +24,6 @@ RosGpsMessage::RosGpsMessage(const sensor_msgs::msg::NavSatFix::SharedPtr msg)
 {
   time = RosHeaderToTime(msg->header);
   gps_lla = Eigen::Vector3d{msg->latitude, msg->longitude, msg->altitude};
+  pos_covariance = RosToEigen(msg->position_covariance);
   sensor_type = SensorType::GPS;
 }
-- 
2.43.0


From 744cc3f3cdc8602f449ebc8e732b8d620cf508a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 40/46] fix: read a GPS antenna's is_extrinsic in the node

---
 src/application/ros/node/ekf_cal_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 8f51c6b..994abfa 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -441,6 +441,7 @@ void EkfCalNode::DeclareGpsParameters(const std::string & gps_name)
   // Declare parameters
   std::string gps_prefix = "gps." + gps_name;
   DeclareSensorParameters(gps_prefix);
+  declare_parameter(gps_prefix + ".is_extrinsic", false);
   declare_parameter(gps_prefix + ".pos_a_in_b", std::vector<double>{0, 0, 0});
   declare_parameter(gps_prefix + ".pos_stability", 1e-9);
   declare_parameter(gps_prefix + ".variance", std::vector<double>{1, 1, 1});
@@ -450,12 +451,14 @@ GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
 {
   // Get parameters
   std::string gps_prefix = "gps." + gps_name;
+  bool is_extrinsic = get_parameter(gps_prefix + ".is_extrinsic").as_bool();
   std::vector<double> pos_a_in_b = get_parameter(gps_prefix + ".pos_a_in_b").as_double_array();
   std::vector<double> variance = get_parameter(gps_prefix + ".variance").as_double_array();
   double pos_stability = get_parameter(gps_prefix + ".pos_stability").as_double();
 
   GPS::Parameters gps_params;
   LoadSensorParameters(gps_params, gps_prefix, gps_name);
+  gps_params.is_extrinsic = is_extrinsic;
   gps_params.pos_a_in_b = StdToEigVec(pos_a_in_b);
   gps_params.variance = StdToEigVec(variance);
   gps_params.pos_stability = pos_stability;
-- 
2.43.0


From 0e2650e3137782f4d6e8a8e405ea0320e3e7d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 41/46] fix: give the node's trackers and boards the lens and
 calibration of their camera

---
 src/application/ros/node/ekf_cal_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 994abfa..ecbbe5e 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -501,6 +501,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.tracker.empty()) {
     FeatureTracker::Parameters trk_params = GetTrackerParameters(camera_params.tracker);
     trk_params.camera_id = camera_ptr->GetId();
+    trk_params.is_cam_extrinsic = camera_params.is_extrinsic;
+    trk_params.intrinsics = camera_params.intrinsics;
     trk_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FeatureTracker> trk_ptr = std::make_shared<FeatureTracker>(trk_params);
     camera_ptr->AddTracker(trk_ptr);
@@ -509,6 +511,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.fiducial.empty()) {
     FiducialTracker::Parameters fid_params = GetFiducialParameters(camera_params.fiducial);
     fid_params.camera_id = camera_ptr->GetId();
+    fid_params.is_cam_extrinsic = camera_params.is_extrinsic;
+    fid_params.intrinsics = camera_params.intrinsics;
     fid_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FiducialTracker> fid_ptr = std::make_shared<FiducialTracker>(fid_params);
     camera_ptr->AddFiducial(fid_ptr);
-- 
2.43.0


From 194b55c7951803bcb1c36ba4ad0dffe0fa250e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 42/46] fix: make the node's default body orientation a
 rotation

---
 src/application/ros/node/ekf_cal_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index ecbbe5e..8ed590d 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -69,7 +69,7 @@ EkfCalNode::EkfCalNode()
   declare_parameter("process_noise.ang_vel", 1.0e-2);
   declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
-  declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
+  declare_parameter("ang_b_to_l", std::vector<double>{1, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
   declare_parameter("ang_l_to_e", 0.0);
   declare_parameter("gps_init_type", 0);
-- 
2.43.0


From 3da93bdf72687053a2d278df58d11dc601e2c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 43/46] fix: announce a new log level in ROS when INFO is
 shown, and the new one

---
 src/infrastructure/ros/ros_debug_logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infrastructure/ros/ros_debug_logger.cpp b/src/infrastructure/ros/ros_debug_logger.cpp
index 054bbbe..d94a7a8 100644
--- a/src/infrastructure/ros/ros_debug_logger.cpp
+++ b/src/infrastructure/ros/ros_debug_logger.cpp
@@ -25,18 +25,18 @@
 
 void DebugLogger::SetLogLevel(LogLevel level)
 {
-  if ((m_log_level <= LogLevel::INFO) || (level <= LogLevel::INFO)) {
+  if ((m_log_level >= LogLevel::INFO) || (level >= LogLevel::INFO)) {
     RCLCPP_INFO_STREAM(
       rclcpp::get_logger(
         "Logger"), "Log level set to: " <<
-        m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(m_log_level)]);
+        m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(level)]);
   }
   m_log_level = level;
 }
 
 void DebugLogger::SetLogLevel(unsigned int level)
 {
-  if ((m_log_level <= LogLevel::INFO) || (static_cast<LogLevel>(level) <= LogLevel::INFO)) {
+  if ((m_log_level >= LogLevel::INFO) || (static_cast<LogLevel>(level) >= LogLevel::INFO)) {
     RCLCPP_INFO_STREAM(
       rclcpp::get_logger("Logger"),
       "Log level set to: " << m_log_level_names[level]);
-- 
2.43.0


From 4fa19e3bd98cb977030f7a16e5cd4cb0ec8ef179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 44/46] fix: do not take messages for printf formats in the ROS
 logger

---
 src/infrastructure/ros/ros_debug_logger.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infrastructure/ros/ros_debug_logger.cpp b/src/infrastructure/ros/ros_debug_logger.cpp
index d94a7a8..827c880 100644
--- a/src/infrastructure/ros/ros_debug_logger.cpp
+++ b/src/infrastructure/ros/ros_debug_logger.cpp
@@ -51,23 +51,23 @@ void DebugLogger::Log(LogLevel level, const std::string & message)
   if (m_log_level >= level) {
     switch (level) {
       case LogLevel::DEBUG:
-        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::INFO:
-        RCLCPP_INFO(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_INFO(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::WARN:
-        RCLCPP_WARN(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_WARN(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::ERROR:
-        RCLCPP_ERROR(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_ERROR(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::FATAL:
-        RCLCPP_FATAL(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_FATAL(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
     }
   }
-- 
2.43.0


From 386438b16d80ae6ce1270f5098ff453c80d355c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 45/46] fix: tell the node's filter how long its tracks are

---
 src/application/ros/node/ekf_cal_node.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 8ed590d..baeb8c1 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -17,6 +17,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
@@ -188,6 +189,18 @@ void EkfCalNode::LoadSensorParameters(
 
 void EkfCalNode::LoadSensors()
 {
+  // The filter keeps clones for the longest track
+  unsigned int max_track_length {0};
+  for (std::string & tracker_name : m_tracker_list) {
+    max_track_length =
+      std::max(max_track_length, GetTrackerParameters(tracker_name).max_track_length);
+  }
+  for (std::string & fiducial_name : m_fiducial_list) {
+    max_track_length =
+      std::max(max_track_length, GetFiducialParameters(fiducial_name).max_track_length);
+  }
+  m_ekf->SetMaxTrackLength(max_track_length);
+
   // Load IMU sensor parameters
   for (std::string & imu_name : m_imu_list) {
     LoadImu(imu_name);
-- 
2.43.0


From 522b20dc1e01eeeb5b4197a03e5f7a4075b3de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 46/46] fix: take the root of a full measurement covariance,
 not the roots of its entries

---
 src/ekf/update/updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/updater.cpp b/src/ekf/update/updater.cpp
index 52d3d3c..93c810c 100644
--- a/src/ekf/update/updater.cpp
+++ b/src/ekf/update/updater.cpp
@@ -36,7 +36,12 @@ void Updater::KalmanUpdate(
   Eigen::MatrixXd observation_noise;
 
   if (ekf.GetUseRootCovariance()) {
-    observation_noise = measurement_noise.cwiseSqrt();
+    // The root of a matrix is that of its entries only if it is diagonal
+    if (measurement_noise.isDiagonal()) {
+      observation_noise = measurement_noise.cwiseSqrt();
+    } else {
+      observation_noise = measurement_noise.llt().matrixU();
+    }
     innovation = QR_r(ekf.m_cov * jacobian.transpose(), observation_noise);
     gain = ekf.m_cov.transpose() * ekf.m_cov * jacobian.transpose() *
       (innovation.transpose() * innovation).inverse();
-- 
2.43.0

