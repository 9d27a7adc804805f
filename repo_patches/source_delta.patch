From 4cda29759e772331600f81a3bf6d16ff4c69d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 01/15] fix: use every waiting measurement once per tick

The loop compared its index with the shrinking queue size, so that messages
behind an expiring one were skipped in that tick.
---
 ekf_localizer/src/pose_measurement.cpp  | 4 +++-
 ekf_localizer/src/twist_measurement.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..e8fc7bb 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,9 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // pop() drops expired messages, so the size changes during the loop
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..84dea09 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,9 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // pop() drops expired messages, so the size changes during the loop
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 9cef242380754f23fd5c33a8ae39e8583f553382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 02/15] fix: saturate the delay step instead of overflowing int

A message with a zero stamp, or two ticks at the same time, made the delay
step overflow to a negative index into the filter history.
---
 ekf_localizer/include/ekf_localizer/delay.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..488c8a6 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -16,6 +16,8 @@
 #define EKF_LOCALIZER__DELAY_HPP_
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +29,16 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  if (!(delay_time > 0.)) {
+    return 0;
+  }
+
+  // dt can be zero and the delay can be arbitrarily long
+  const double step = std::round(delay_time / dt);
+  if (!(step < static_cast<double>(std::numeric_limits<int>::max()))) {
+    return std::numeric_limits<int>::max();
+  }
+  return static_cast<int>(step);
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 3da3b52a77cc79792fad90f49a9a8d6d4d76b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 03/15] fix: wrap the yaw innovation of pose measurements

A measurement on the other side of the +-pi cut turned the estimate by almost
a full turn.
---
 ekf_localizer/src/pose_measurement.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index e8fc7bb..13f1c6a 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -93,13 +93,18 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+
+    // Express the measured yaw next to the estimated one so that
+    // the innovation never goes the long way round
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));
+
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From 60df458a33aa88bd8b8064e91ebc800bc2ebeb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 04/15] fix: ignore observations that would make the height or
 angle filters non-finite

A single NaN or infinite height, angle or variance made every later published
pose NaN.
---
 .../include/ekf_localizer/ekf_localizer.hpp   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..4ea3d23 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -21,6 +21,7 @@
 #include <tf2_ros/transform_listener.h>
 
 #include <chrono>
+#include <cmath>
 #include <iostream>
 #include <memory>
 #include <queue>
@@ -73,21 +74,31 @@ public:
   }
   void update(const double obs, const double obs_stddev, const rclcpp::Time time)
   {
+    if (!std::isfinite(obs) || !std::isfinite(obs_stddev)) {
+      return;
+    }
+
     if (!initialized_) {
       init(obs, obs_stddev, time);
       return;
     }
 
-    // Prediction step (current stddev_)
+    // Prediction step
     double dt = (time - latest_time_).seconds();
     double proc_stddev_x_d = proc_stddev_x_c_ * dt;
-    stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
+    double stddev = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
-    x_ = x_ + kalman_gain * (obs - x_);
-    stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
+    double kalman_gain = stddev * stddev / (stddev * stddev + obs_stddev * obs_stddev);
+    double x = x_ + kalman_gain * (obs - x_);
+    stddev = std::sqrt(1 - kalman_gain) * stddev;
+
+    if (!std::isfinite(x) || !std::isfinite(stddev)) {
+      return;
+    }
 
+    x_ = x;
+    stddev_ = stddev;
     latest_time_ = time;
     return;
   }
-- 
2.43.0


From 8fb307416f89b11ff0a4e09420559e1d10c06316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 05/15] fix: ignore an initial pose whose frame is unknown

The error was reported and then the missing transform was dereferenced.
---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From d5208d89f3da163bfee3fadd12c94e722479b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 06/15] fix: rotate the initial position into the map frame

Only the translation of the transform was applied to the position.
---
 ekf_localizer/src/ekf_localizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index b1e0cf7..c3956bf 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -247,7 +247,8 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
   const Eigen::Vector3d translation = ToVector3d(maybe_transform->transform.translation);
-  const Eigen::Vector3d t = initial_position + translation;
+  const Eigen::Quaterniond rotation = ToQuaterniond(maybe_transform->transform.rotation);
+  const Eigen::Vector3d t = rotation * initial_position + translation;
   const double initial_yaw = tf2::getYaw(initialpose->pose.pose.orientation);
   const double yaw = tf2::getYaw(maybe_transform->transform.rotation);
 
-- 
2.43.0


From f1810edd008b4222673f7bf50a017cc4d32e6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 07/15] fix: accept an empty frame id in EraseBeginSlash

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From 25dfe646c64dff3e6a739343c9ca881f66667857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 08/15] fix: exact block boundaries

---
 extraction/src/index_range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..72a5160 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,8 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  const int64_t length = end_index_ - start_index_;
+  return static_cast<int>(start_index_ + length * j / n_blocks_);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From e92d173311093e6a9ae9612bf21f356e0d2015de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 09/15] fix: ranges of a sub-interval start at its begin

---
 extraction/include/lidar_feature_extraction/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/range.hpp b/extraction/include/lidar_feature_extraction/range.hpp
index 6474fdc..015b657 100644
--- a/extraction/include/lidar_feature_extraction/range.hpp
+++ b/extraction/include/lidar_feature_extraction/range.hpp
@@ -59,7 +59,7 @@ public:
   {
     std::vector<double> ranges(end - begin);
     for (unsigned int i = 0; i < ranges.size(); i++) {
-      ranges.at(i) = (*this)(i);
+      ranges.at(i) = (*this)(begin + i);
     }
     return ranges;
   }
-- 
2.43.0


From 2e64fc1150e693953e7e309cc633c168d76ff07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 10/15] fix: angle between parallel vectors is not NaN

---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..2f9462d 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -41,6 +42,7 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
     throw std::invalid_argument("All input values are zero. Angle cannot be calculated");
   }
 
-  const double cos_angle = dot / (norm1 * norm2);
+  // rounding may push the cosine of nearly parallel vectors slightly out of [-1, 1]
+  const double cos_angle = std::clamp(dot / (norm1 * norm2), -1., 1.);
   return std::acos(cos_angle);
 }
-- 
2.43.0


From 024115b75ec36c4c502ea5d2566bca972c5ed20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 11/15] fix: polar angle comparison is a strict weak order

---
 .../include/lidar_feature_extraction/ring.hpp | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..66af2be 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -64,37 +64,47 @@ struct AHasSmallerPolarAngleThanB
       return false;
     }
 
-    const double lena = a.x * a.x + a.y * a.y;
-    const double lenb = b.x * b.x + b.y * b.y;
+    // products of float coordinates are exact in double
+    const double ax = a.x;
+    const double ay = a.y;
+    const double bx = b.x;
+    const double by = b.y;
+
+    const double lena = ax * ax + ay * ay;
+    const double lenb = bx * bx + by * by;
 
     if (lena == 0) {
-      if (b.y == 0) {
-        // for the case that b.x > 0
-        // --> atan2(b.x, b.y) == atan2(a.y, a.x) == 0
-        return b.x < 0;
+      if (by == 0) {
+        // for the case that bx > 0
+        // --> atan2(by, bx) == atan2(ay, ax) == 0
+        return bx < 0;
       }
-      return b.y > 0;
+      return by > 0;
     }
 
     if (lenb == 0) {
-      return a.y < 0;
+      return ay < 0;
+    }
+
+    if (ay == 0 && by == 0) {
+      return ax >= 0 && bx < 0;
     }
 
-    if (a.y == 0) {
-      return (a.x >= 0) && (b.y >= 0);
+    if (ay == 0) {
+      return (ax >= 0) && (by >= 0);
     }
 
-    if (b.y == 0) {
-      return !((b.x >= 0) && (a.y >= 0));
+    if (by == 0) {
+      return !((bx >= 0) && (ay >= 0));
     }
 
     // both have the same y sign
-    if (a.y * b.y > 0) {
-      const double det = a.x * b.y - a.y * b.x;
+    if (ay * by > 0) {
+      const double det = ax * by - ay * bx;
       return det > 0;
     }
 
-    return a.y < 0;
+    return ay < 0;
   }
 };
 
-- 
2.43.0


From 4b402690a8579f7055fc9d6e4fb2675606f3dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 12/15] fix: cleaning the prior store when every stamp is newer

---
 .../stamp_sorted_objects.hpp                       | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..73f923e 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -89,19 +89,7 @@ public:
 
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
-
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From 5e6f3825bc937b775bba96579988e3adaa2a5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 13/15] fix: take converted fields by name

---
 .../point_type_converter/convert.py            | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 209b473..dfcf4df 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -121,14 +121,16 @@ def split(collection, chunk_size):
     return tuple(collection[i:i+m] for i in range(0, n, m))
 
 
-def find_indices(fields, retained_names):
-    return [i for i in range(len(fields)) if fields[i].name in retained_names]
+def find_indices(fields, names):
+    # index of each name in fields, None where there is no such field
+    field_names = [f.name for f in fields]
+    return [field_names.index(n) if n in field_names else None for n in names]
 
 
 def filter_point_data(point_tuples, input_fields, output_fields):
-    output_names = {f.name for f in output_fields}
-    indices = find_indices(input_fields, output_names)
-    return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
+    indices = find_indices(input_fields, [f.name for f in output_fields])
+    return tuple(tuple(0 if i is None else chunk[i] for i in indices)
+                 for chunk in point_tuples)
 
 
 output_point_step = 32
@@ -181,16 +183,14 @@ class PointTypeConverter(Node):
             PointCloud2, '/points_converted', reliable_keep_all())
 
     def callback(self, input_cloud):
-        input_fields = input_cloud.fields
-        input_fields.append(make_point_field('padding', 12, np.float32, 1))
-        input_fields = sorted(input_fields, key=lambda f: f.offset)
+        input_fields = sorted(input_cloud.fields, key=lambda f: f.offset)
         unpacked = unpack_point_bytes(
             input_cloud.data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
         output_fields = make_fields()
-        unpacked = tuple(c for c in unpacked if nonzero(c))
         filtered = filter_point_data(unpacked, input_fields, output_fields)
+        filtered = tuple(c for c in filtered if nonzero(c))
 
         data = pack_point_data(
             filtered, output_fields, output_point_step, False)
-- 
2.43.0


From fe2686993b30de4fb5770f6a26139c1dcfdc885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 14/15] fix: take the registration step with the quaternion the
 Jacobians were derived from

The optimizer keeps composing its own quaternion, while every problem derives
its Jacobian from the quaternion of the pose's rotation matrix.  The two agree
only up to sign, so beyond 120 degrees of rotation the step rotated the wrong way.
---
 localization/include/lidar_feature_localization/optimizer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/localization/include/lidar_feature_localization/optimizer.hpp b/localization/include/lidar_feature_localization/optimizer.hpp
index d6efc57..6517097 100644
--- a/localization/include/lidar_feature_localization/optimizer.hpp
+++ b/localization/include/lidar_feature_localization/optimizer.hpp
@@ -110,7 +110,9 @@ public:
       prev_scale = scale;
 
       const Eigen::VectorXd weights = ComputeWeights(normalized);
-      const auto [dq, dt] = CalcUpdate(q, weights, jacobians, residuals);
+      // The problem derives its jacobians from pose, so use the quaternion of the same sign
+      const Eigen::Quaterniond pose_q(pose.linear());
+      const auto [dq, dt] = CalcUpdate(pose_q, weights, jacobians, residuals);
 
       q = q * dq;
       t = t + dt;
-- 
2.43.0


From 6022af1d933d52e066e68c49885debab364509b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 15/15] fix: define the destructor of KalmanFilter

---
 kalman_filter/include/kalman_filter/kalman_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalman_filter/include/kalman_filter/kalman_filter.hpp b/kalman_filter/include/kalman_filter/kalman_filter.hpp
index d65d388..97a46d1 100644
--- a/kalman_filter/include/kalman_filter/kalman_filter.hpp
+++ b/kalman_filter/include/kalman_filter/kalman_filter.hpp
@@ -88,7 +88,7 @@ public:
   /**
    * @brief destructor
    */
-  ~KalmanFilter();
+  ~KalmanFilter() = default;
 
   /**
    * @brief initialization of kalman filter
-- 
2.43.0

