From bfedfa5f215204425c5d9bd37d1c36c3bcab8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 01/18] fix: derivative of the radial distortion in Disto2 and
 Disto24

DistortionDerivative has to return d(x * Distortion(x^2)) / dx, as it does in
Disto2468, for Newton-Raphson to converge quadratically: the coefficients of
k1 and k2 are 3 and 5.
---
 opensfm/src/geometry/camera_distortions_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 8baa0a7..253f09d 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -95,7 +95,7 @@ struct Disto2 : Functor<2, 1, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1) {
-    return T(1.0) + r2 * T(2.0) * k1;
+    return T(1.0) + r2 * T(3.0) * k1;
   }
 };
 
@@ -197,7 +197,7 @@ struct Disto24 : Functor<2, 2, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1, const T& k2) {
-    return T(1.0) + r2 * T(2.0) * (k1 + T(2.0) * k2 * r2);
+    return T(1.0) + r2 * (T(3.0) * k1 + T(5.0) * k2 * r2);
   }
 };
 
-- 
2.43.0


From ede99876d36eec1f3812ce9df95967e97d9b430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 02/18] fix: storage order of the jacobian in Disto624
 undistortion

ForwardDerivatives writes row-major, and the thin prism terms make the matrix
non symmetric: read column-major, Newton-Raphson used its transpose.
---
 opensfm/src/geometry/camera_distortions_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 253f09d..bed8385 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -687,7 +687,8 @@ struct Disto624 : Functor<2, 12, 2> {
     }
 
     Mat2<T> derivative(const Vec2<T>& point) const {
-      Mat2<T> jacobian;
+      // ForwardDerivatives fills its output row by row
+      Eigen::Matrix<T, 2, 2, Eigen::RowMajor> jacobian;
       std::array<double, 2> dummy{};
       std::array<double, 12> ks{k1, k2, k3, k4, k5, k6, p1, p2, s0, s1, s2, s3};
       Disto624::ForwardDerivatives<T, false>(point.data(), ks.data(),
-- 
2.43.0


From 41ff6d457c0c975a5df1b3d9bf6e0c6e480ac363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 03/18] fix: sign of the small-angle rotation in PoseFunctor
 derivatives

The skew-symmetric matrix was written through a column-major map of a
row-major buffer, which transposed it: the derivatives with respect to the
rotation had the opposite sign for (near) zero rotations.
---
 opensfm/src/geometry/transformations_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/transformations_functions.h b/opensfm/src/geometry/transformations_functions.h
index efb8153..6073a45 100644
--- a/opensfm/src/geometry/transformations_functions.h
+++ b/opensfm/src/geometry/transformations_functions.h
@@ -219,7 +219,8 @@ struct PoseFunctor : Functor<3, 6, 3> {
 
     // Use Taylor approximation near zero angle : R = I + [angle_axis]x
     if (theta2 < T(std::numeric_limits<double>::epsilon())) {
-      Eigen::Map<Mat3<T>> mapped_rotation(rotation);
+      Eigen::Map<Eigen::Matrix<T, 3, 3, Eigen::RowMajor>> mapped_rotation(
+          rotation);
       const Eigen::Map<const Vec3<T>> mapped_angle_axis(angle_axis);
       foundation::SkewMatrixT(mapped_angle_axis, &mapped_rotation);
       for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From 494e79bf71a4084a1c1b33673e52644dbeacc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 04/18] fix: Pose rotation setters left the origin of the
 previous rotation

SetWorldToCamRotation and SetWorldToCamRotationMatrix updated the rotation
of the camera-to-world transform but not its translation.
---
 opensfm/src/geometry/pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..289b9a7 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -85,7 +85,7 @@ class Pose {
   virtual void SetWorldToCamRotation(const Vec3d& r_cw) {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
 
@@ -96,7 +96,7 @@ class Pose {
 
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From 979cc0bdb76f01e315bc3a7674f71300ec580df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 05/18] fix: linear motion prior used the rig camera of the
 first shot for the third when it is shared with the second

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..9cdd572 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1073,9 +1073,12 @@ void BundleAdjuster::Run() {
         cost_function->AddParameterBlock(6);
         linear_motion->shot2_rig_camera_index = parameter_blocks.size();
         parameter_blocks.push_back(shot2_rig_camera);
-      } else {
+      } else if (shot2_rig_camera == shot0_rig_camera) {
         linear_motion->shot2_rig_camera_index =
             linear_motion->shot0_rig_camera_index;
+      } else {
+        linear_motion->shot2_rig_camera_index =
+            linear_motion->shot1_rig_camera_index;
       }
     }
     problem.AddResidualBlock(cost_function, linear_motion_prior_loss_,
-- 
2.43.0


From a16e2923aef59c2b0d3fc6300decfaefa7e8b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 06/18] fix: the prior standard deviation of k4 was ignored,
 which froze the parameter

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 9cdd572..dadbb6a 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,6 +55,7 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
-- 
2.43.0


From 19ea6f4d9876d783641d0060957525d062ce8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 07/18] fix: precise quaternion_from_matrix for rotations above
 90 degrees

The branch taken when the trace is small indexed the matrix from one
instead of zero and wrote the real part over an imaginary one, so
quaternion_from_matrix(M, isprecise=True) returned another rotation or
divided by zero.
---
 opensfm/transformations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opensfm/transformations.py b/opensfm/transformations.py
index 2a2cb30..a47790a 100644
--- a/opensfm/transformations.py
+++ b/opensfm/transformations.py
@@ -1400,16 +1400,17 @@ def quaternion_from_matrix(matrix: NDArray, isprecise: bool = False) -> NDArray:
             q[2] = M[0, 2] - M[2, 0]
             q[1] = M[2, 1] - M[1, 2]
         else:
-            i, j, k = 1, 2, 3
+            i, j, k = 0, 1, 2
             if M[1, 1] > M[0, 0]:
-                i, j, k = 2, 3, 1
+                i, j, k = 1, 2, 0
             if M[2, 2] > M[i, i]:
-                i, j, k = 3, 1, 2
+                i, j, k = 2, 0, 1
             t = M[i, i] - (M[j, j] + M[k, k]) + M[3, 3]
             q[i] = t
             q[j] = M[i, j] + M[j, i]
             q[k] = M[k, i] + M[i, k]
             q[3] = M[k, j] - M[j, k]
+            q = q[[3, 0, 1, 2]]
         q *= 0.5 / math.sqrt(t * M[3, 3])
     else:
         m00 = M[0, 0]
-- 
2.43.0


From 1d859eece879d5551ab0d7d73dbe22b620351728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 08/18] fix: angle between opposite vectors is pi, not 0

---
 opensfm/src/geometry/src/triangulation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/src/triangulation.cc b/opensfm/src/geometry/src/triangulation.cc
index 110e50a..537f968 100644
--- a/opensfm/src/geometry/src/triangulation.cc
+++ b/opensfm/src/geometry/src/triangulation.cc
@@ -65,8 +65,10 @@ namespace geometry {
 
 double AngleBetweenVectors(const Vec3d& u, const Vec3d& v) {
   const double c = (u.dot(v)) / std::sqrt(u.dot(u) * v.dot(v));
-  if (std::fabs(c) >= 1.0) {
+  if (c >= 1.0) {
     return 0.0;
+  } else if (c <= -1.0) {
+    return M_PI;
   } else {
     return acos(c);
   }
-- 
2.43.0


From 7050b41a99e57d01143295df917173dc6faa9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 09/18] fix: relative pose from essential: compare scores as
 doubles

The best score was kept in a pair<int, ...>, hence truncated: a candidate
with a lower score could replace the best one.
---
 opensfm/src/geometry/relative_pose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/relative_pose.h b/opensfm/src/geometry/relative_pose.h
index f5d2736..61df202 100644
--- a/opensfm/src/geometry/relative_pose.h
+++ b/opensfm/src/geometry/relative_pose.h
@@ -33,7 +33,7 @@ Eigen::Matrix<double, 3, 4> RelativePoseFromEssential(
   Eigen::Matrix<double, 2, 3> centers;
   centers.row(0) = Eigen::Vector3d::Zero();
 
-  auto best_decomposition = std::make_pair(0, Eigen::Matrix<double, 3, 4>());
+  auto best_decomposition = std::make_pair(0.0, Eigen::Matrix<double, 3, 4>());
   for (int i = 0; i < 2; ++i) {
     Eigen::Vector3d translation;
     if (i == 0) {
-- 
2.43.0


From 96a782f52c35b3e87f71c4696cff84bf1a5af008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 10/18] fix: closest rotation of a reflected matrix flips one
 direction only

Negating the whole matrix gives a rotation, but not the closest one: three
correspondences (or coplanar ones) gave a wrong rotation half of the time.
---
 opensfm/src/foundation/src/numeric.cc | 7 +++++--
 opensfm/src/geometry/transform.h      | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/opensfm/src/foundation/src/numeric.cc b/opensfm/src/foundation/src/numeric.cc
index 98aac7f..e592a5a 100644
--- a/opensfm/src/foundation/src/numeric.cc
+++ b/opensfm/src/foundation/src/numeric.cc
@@ -11,9 +11,12 @@ Eigen::Matrix3d SkewMatrix(const Eigen::Vector3d& v) {
 Eigen::Matrix3d ClosestRotationMatrix(const Eigen::Matrix3d& matrix) {
   Eigen::JacobiSVD<Eigen::Matrix3d> svd(
       matrix, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  Eigen::Matrix3d rotation = svd.matrixU() * svd.matrixV().transpose();
+  Eigen::Matrix3d U = svd.matrixU();
+  Eigen::Matrix3d rotation = U * svd.matrixV().transpose();
   if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+    // Only flip the direction of the smallest singular value
+    U.col(2) *= -1.0;
+    rotation = U * svd.matrixV().transpose();
   }
   return rotation;
 }
diff --git a/opensfm/src/geometry/transform.h b/opensfm/src/geometry/transform.h
index a2c4662..95810d6 100644
--- a/opensfm/src/geometry/transform.h
+++ b/opensfm/src/geometry/transform.h
@@ -30,11 +30,13 @@ Eigen::Matrix3d RotationBetweenPoints(IT begin, IT end) {
 
   Eigen::JacobiSVD<Eigen::Matrix3d> svd(
       M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  const Eigen::Matrix3d& U = svd.matrixU();
+  Eigen::Matrix3d U = svd.matrixU();
   const Eigen::Matrix3d& V = svd.matrixV();
   Eigen::Matrix3d rotation = U * V.transpose();
   if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+    // Only flip the direction of least correlation
+    U.col(2) *= -1.0;
+    rotation = U * V.transpose();
   }
   return rotation;
 }
-- 
2.43.0


From 2441042e83dd3d308cda2f277dff887eb78e17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 11/18] fix: robust estimation hung when it needed more samples
 than available

---
 opensfm/src/robust/robust_estimator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index a68ea5e..f98e652 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -42,6 +42,9 @@ ScoreInfo<typename MODEL::Type> Estimate(
   RandomSamplesGenerator<std::mt19937> random_generator;
 
   ScoreInfo<typename MODEL::Type> best_score;
+  if (samples.size() < MODEL::MINIMAL_SAMPLES) {
+    return best_score;
+  }
   bool should_stop = false;
   std::vector<typename MODEL::Data> inliers_samples;  // Used to gather inliers
   for (int i = 0; i < params.iterations && !should_stop; ++i) {
@@ -72,6 +75,11 @@ ScoreInfo<typename MODEL::Type> Estimate(
       // Run local optimization (inner non-minimal RANSAC on inliers)
       if (best_found && params.use_local_optimization) {
         for (int k = 0; k < params.local_optimization_iterations; ++k) {
+          // A better LO model (MSAC, LMedS) might have fewer inliers
+          if (best_score.inliers_indices.size() < MODEL::MINIMAL_SAMPLES) {
+            break;
+          }
+
           // Gather inliers and use them for getting random sample
           inliers_samples.clear();
           inliers_samples.reserve(best_score.inliers_indices.size());
-- 
2.43.0


From 5ec25335d5c66aa0538db5cf91b59e07f3d3f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:27 +0000
Subject: [PATCH 12/18] fix: ground control points without altitude were split
 by line

---
 opensfm/io.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..4681356 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -894,7 +894,10 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        has_altitude = not np.isnan(alt)
+        if not has_altitude:
+            alt = 0
+        key = (easting, northing, alt, has_altitude)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
@@ -905,11 +908,6 @@ def _read_gcp_list_lines(
             point = points[key]
         else:
             # Convert 3D coordinates
-            if np.isnan(alt):
-                alt = 0
-                has_altitude = False
-            else:
-                has_altitude = True
             if projection is not None:
                 lat, lon = projection.transform(easting, northing)
             else:
-- 
2.43.0


From 6adc4fba78c2bfa053688e4350833b8caa032d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:03 +0000
Subject: [PATCH 13/18] fix: copies of a map lost the colors of the landmarks

---
 opensfm/src/map/src/map.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..67cab4f 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -44,7 +44,8 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos())
+        .SetColor(landmark.GetColor());
   }
 
   if (copy_observations) {
-- 
2.43.0


From 043c557f60dffbe11f92da9babf379a03fa71b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:20 +0000
Subject: [PATCH 14/18] fix: OPK angles computed from XMP yaw, pitch and roll
 were rotated by the longitude

The unit vector pointing north was taken in ECEF coordinates and combined with
a down vector of the local frame, so a camera flying north at longitude l got
kappa = l + 90 degrees. OPK angles are used in the topocentric frame.
---
 opensfm/exif.py | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..01b9b2c 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -10,7 +10,6 @@ import numpy as np
 import xmltodict as x2d
 from opensfm import pygeometry
 from opensfm.dataset_base import DataSetBase
-from opensfm.geo import ecef_from_lla
 from opensfm.sensors import camera_calibration, sensor_data
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -565,31 +564,9 @@ class EXIF:
                 # (Swap X/Y, flip Z)
                 cbb = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
-                delta = 1e-7
-
-                p1 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] + delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                p2 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] - delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                xnp = p1 - p2
-                m = np.linalg.norm(xnp)
-
-                if m == 0:
-                    logger.debug("Cannot compute OPK angles, divider = 0")
-                    return opk
-
-                # Unit vector pointing north
-                xnp /= m
+                # Unit vector pointing north in the topocentric (ENU) frame,
+                # the one in which OPK angles are used
+                xnp = np.array([0, 1, 0])
 
                 znp = np.array([0, 0, -1]).T
                 ynp = np.cross(znp, xnp)
-- 
2.43.0


From 4c2e9d0d091ea1952d9afcbcbb4c8b147578d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:20 +0000
Subject: [PATCH 15/18] fix: minutes of positive time zone offsets were added
 instead of subtracted

---
 opensfm/exif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 01b9b2c..3a343b7 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -453,9 +453,10 @@ class EXIF:
                 if offset_tag in self.tags:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                        offset = datetime.timedelta(
+                            hours=int(offset_time[1:3]), minutes=int(offset_time[4:6])
                         )
+                        d += offset if offset_time[0] == "-" else -offset
                     except (TypeError, ValueError):
                         logger.debug(
                             'The "{0:s}" time zone offset in image file "{1:s}"'
-- 
2.43.0


From df20300fbc64abc3d45a2dae36c2e1da299c0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:20 +0000
Subject: [PATCH 16/18] fix: the projection type of the first image stuck to
 hard coded calibrations

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 3a343b7..356cafc 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -715,7 +715,8 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        # The calibration may be shared: leave it as it is
+        calib = {**calib, "projection_type": pt}
     return calib
 
 
-- 
2.43.0


From 34702f4e17895618d32e66bde9b7e1251d70968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:20 +0000
Subject: [PATCH 17/18] fix: an image with a latitude but no longitude could
 not be read

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 356cafc..db3c7db 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -347,7 +347,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
-- 
2.43.0


From 3e3ae7063a063a021709c26b2984086f09e9ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:38 +0000
Subject: [PATCH 18/18] fix: neighbours by distance were lost to phantom images
 at the origin

points had a row for each reference that is not a candidate too, left at
zero: they took the place of candidates among the nearest neighbours.
---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..33dfc1c 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,7 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
+    points = np.zeros((len(images_cand), 3))
     for i, point_id in enumerate(images_cand):
         points[i] = representative_points[point_id]
 
-- 
2.43.0

