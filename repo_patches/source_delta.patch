From 881597ce8d025688c8e6c5a1508359ed676ff34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 01/22] fix: change_twist_reference_frame returned nothing

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..c0a91b1 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From a974abd20b9a604f608e1921c2879643eb36c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 02/22] fix: cartesian_to_polar azimuth divided by the squared
 horizontal range

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index c0a91b1..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From a204aa2fa8abb04b2210889ed7b407f59b439014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 03/22] fix: from_skew_symmetric accepted matrices that are not
 skew symmetric

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..207a7cb 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if (matrix.transpose() != -matrix) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From 74f5f86dd2031f1763fd92090bba3e9b1e24c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 04/22] fix: reorder_covariance wrote out of bounds for
 dynamically sized matrices

---
 eigen_ext/include/eigen_ext/covariance.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..83f131d 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -68,6 +68,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
     Derived reordered_covariance;
+    reordered_covariance.resize(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From 8a20c20060e9e321743e9b39bfe545576b3c88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 05/22] fix: PrecomputedTransformComponents was NaN for a zero
 rotation vector

---
 .../include/eigen_ext/precomputed_transform_components.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..29a4244 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,8 +48,11 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
-    R_ = angleaxis.toRotationMatrix();
+    if (a_ == static_cast<Scalar>(0)) {
+        R_.setIdentity();
+    } else {
+        R_ = Eigen::AngleAxis<Scalar>{a_, r_ / a_}.toRotationMatrix();
+    }
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
     T_ << R_, t_, Eigen::Matrix<Scalar, 1, 3>::Zero(), static_cast<Scalar>(1);
-- 
2.43.0


From 3ddcd4ee9678a5c1a4c1d90f32a7726c98d08d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 06/22] fix: stereo_project read past the end of the point
 instead of its depth

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From c6309926af175899f10f24f6c4261f42e88275a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 07/22] fix: window sums started from an uninitialised value

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From 3db9b3490f130e74df25aac79da6aa4002458dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 08/22] fix: StereoDistanceFilter never stored focal length and
 baseline

---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From 737934a8a7c37eb7eb12d3c7c994ef20cc6bd9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 09/22] fix: match result and cost were left unset for
 keypoints whose window leaves the image

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..9ff12f1 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -49,6 +49,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
+        matched = false;
         return cv::KeyPoint{};
     }
 
@@ -129,6 +131,7 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
         return -1;
     }
 
-- 
2.43.0


From b7e22e1204592653178b4ebd73722abe6595daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 10/22] fix: ratio test ignored second-best candidates seen
 after the best one

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 9ff12f1..42a8158 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -71,6 +71,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -156,6 +158,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From b5aaa6554663b9ab68730b139770c33720b28b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 11/22] fix: reverse matching used the statistics of the wrong
 reference window

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 42a8158..3df70d9 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -83,7 +83,9 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const MatchingCostFunction reverse_cost_function =
+                    generate_cost_function(reference_image, reverse_reference_image_top_left);
+            const double window_cost = reverse_cost_function(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 641a67e21c6387efc22712ceb6adb04120f37aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:08 +0000
Subject: [PATCH 12/22] fix: initialise the padding of PointAngleAxis in the
 pose constructors

---
 pointcloud_tools/src/point_types.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/point_types.cpp b/pointcloud_tools/src/point_types.cpp
index 22d2999..42864cd 100644
--- a/pointcloud_tools/src/point_types.cpp
+++ b/pointcloud_tools/src/point_types.cpp
@@ -123,23 +123,27 @@ PointAngleAxis::PointAngleAxis(const _PointAngleAxis& p) {
     data_r[3] = 0.0f;
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) {
+PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) : PointAngleAxis() {
     setPose(pose);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis)
+    : PointAngleAxis() {
     setPose(position, angle_axis);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion)
+    : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion)
+    : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix)
+    : PointAngleAxis() {
     setPose(position, rotation_matrix);
 }
 
-- 
2.43.0


From bc77ea95904399d537218a3826df10b1e009cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 13/22] fix: correspondences named positions in the index list
 instead of source points

---
 .../include/pointcloud_tools/impl/registration_utilities.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..50c3339 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -41,7 +41,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back((*registration.getIndices())[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From 821186f8815579e001e2a5c2e8ba686b9957a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 14/22] fix: IMU measurement stamped at the end of the interval
 was integrated over no time, which GTSAM refuses

---
 serpent/src/utils/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..9eb8af3 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -35,8 +35,8 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
 
     ros::Time integration_time = start;
     for (auto it = buffer.cbegin(); it != buffer.cend(); ++it) {
-        // Ignore imu messages past end
-        if (it->timestamp > end) {
+        // Ignore imu messages at or past end
+        if (it->timestamp >= end) {
             break;
         }
         // If the next timestamp is after start time, we integrate
-- 
2.43.0


From 0a823aafb72600535138386619759d1489235150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 15/22] fix: do not read past the last value when extracting a
 range of values

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..9e3007f 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -454,7 +454,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
-- 
2.43.0


From 54c226bb901e2fde148abbf73790eec373c119eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 16/22] fix: connect the previous stereo factor to the key that
 holds the previous features

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 9e3007f..945c538 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From 3b74c525224201559a71b3ad91ab8e02f79b4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 17/22] fix: include landmarks of later keys when the first key
 of a range has none

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 945c538..49460de 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From a483490cdfea846caa87fb838863233299f41452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 18/22] fix: report followed and filtered feature counts for
 the first stereo frame

---
 serpent/src/front_end/stereo/stereo_feature_tracker.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..656eda5 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -83,6 +83,9 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
         ROS_DEBUG_STREAM("Extracted keypoints for " << (lr == 0 ? "left" : "right") << " image");
         if (stats) {
             stats->get().extracted_kp_count[lr] = new_keypoints[lr].size();
+            // Updated below if there are features to track from a previous frame
+            stats->get().tracked_kp_count[lr] = 0;
+            stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
         }
         if (intermediate_images) {
             cv::drawKeypoints(images[lr], new_keypoints[lr], intermediate_images->get().extracted_keypoints[lr],
-- 
2.43.0


From f9ade39ce3b7ff0ea5c107f01d6d1ea88bc553d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:53 +0000
Subject: [PATCH 19/22] fix: default components of the rotation of a body frame
 as documented

---
 eigen_ros/src/body_frames.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/eigen_ros/src/body_frames.cpp b/eigen_ros/src/body_frames.cpp
index 20d847e..46854f0 100644
--- a/eigen_ros/src/body_frames.cpp
+++ b/eigen_ros/src/body_frames.cpp
@@ -230,10 +230,18 @@ Eigen::Isometry3d BodyFrames::transform_from_node(const XmlRpc::XmlRpcValue& nod
         Eigen::Quaterniond rotation = Eigen::Quaterniond::Identity();
         if (node.hasMember("rotation")) {
             XmlRpc::XmlRpcValue rotation_node = node["rotation"];
-            rotation.w() = rotation_node["w"];
-            rotation.x() = rotation_node["x"];
-            rotation.y() = rotation_node["y"];
-            rotation.z() = rotation_node["z"];
+            if (rotation_node.hasMember("w")) {
+                rotation.w() = rotation_node["w"];
+            }
+            if (rotation_node.hasMember("x")) {
+                rotation.x() = rotation_node["x"];
+            }
+            if (rotation_node.hasMember("y")) {
+                rotation.y() = rotation_node["y"];
+            }
+            if (rotation_node.hasMember("z")) {
+                rotation.z() = rotation_node["z"];
+            }
         }
         rotation.normalize();
         transform = eigen_ext::to_transform(translation, rotation);
-- 
2.43.0


From 22159dab06d07bb265d3d1d0de47d6ca83347b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 20/22] fix: do not publish dynamic body frames as static
 transforms

---
 eigen_ros/src/body_frames_tf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..92f7d4d 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,9 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        // Looked-up and dynamic frames are already published by others
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From 40d3e3b5e0190becec1ca82d01884a0acdbe7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:26 +0000
Subject: [PATCH 21/22] fix: replace the dimensions of a reused multi array
 message

---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..8e8b750 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -46,6 +46,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From c7250f35c24eba71cbd20ef42ad0f99aab548ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:10 +0000
Subject: [PATCH 22/22] fix: accept rotations of images by 0 degrees and refuse
 those that are no multiple of 90

---
 .../include/camera_tools/image_operations.hpp    |  4 +++-
 camera_tools/src/image_operations.cpp            | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/camera_tools/include/camera_tools/image_operations.hpp b/camera_tools/include/camera_tools/image_operations.hpp
index e394fe8..11705a0 100644
--- a/camera_tools/include/camera_tools/image_operations.hpp
+++ b/camera_tools/include/camera_tools/image_operations.hpp
@@ -5,6 +5,7 @@
 #include <sensor_msgs/Image.h>
 
 #include <opencv2/opencv.hpp>
+#include <optional>
 
 namespace camera_tools {
 
@@ -34,7 +35,8 @@ public:
     sensor_msgs::CameraInfo apply(const sensor_msgs::CameraInfo& info) override;
 
 private:
-    cv::RotateFlags option;
+    // Not set for a rotation by 0 degrees
+    std::optional<cv::RotateFlags> option;
 };
 
 /**
diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..ec51102 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -9,8 +9,8 @@ Rotate::Rotate(const cv::RotateFlags option)
 
 Rotate::Rotate(int degrees_clockwise) {
     degrees_clockwise = degrees_clockwise % 360;
-    if (degrees_clockwise <= 0) {
-        throw std::runtime_error("Rotate degrees_clockwise must be > 0");
+    if (degrees_clockwise < 0) {
+        throw std::runtime_error("Rotate degrees_clockwise must be >= 0");
     }
     if (degrees_clockwise == 90) {
         option = cv::RotateFlags::ROTATE_90_CLOCKWISE;
@@ -18,18 +18,26 @@ Rotate::Rotate(int degrees_clockwise) {
         option = cv::RotateFlags::ROTATE_180;
     } else if (degrees_clockwise == 270) {
         option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
+    } else if (degrees_clockwise != 0) {
+        throw std::runtime_error("Rotate degrees_clockwise must be a multiple of 90");
     }
 }
 
 cv::Mat Rotate::apply(const cv::Mat& in) {
+    if (!option) {
+        return in.clone();
+    }
     cv::Mat out;
-    cv::rotate(in, out, option);
+    cv::rotate(in, out, *option);
     return out;
 }
 
 sensor_msgs::CameraInfo Rotate::apply(const sensor_msgs::CameraInfo& in) {
     sensor_msgs::CameraInfo out = in;
-    switch (option) {
+    if (!option) {
+        return out;
+    }
+    switch (*option) {
         case cv::RotateFlags::ROTATE_90_CLOCKWISE:
             // Swap width/height, fx/fy
             out.height = in.width;
-- 
2.43.0

