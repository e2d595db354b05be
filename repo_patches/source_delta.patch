From b23c256b920bbbf5a7e4e7f6a612f6efb3884ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 01/49] fix: azimuth of cartesian_to_polar divides by the
 horizontal range, not its square

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..8069702 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From e2a29b7b981b557846652a78a2336f8f3aff85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 02/49] fix: change_twist_reference_frame had no body

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 8069702..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From 18f2ea5f711b68c2d79bf0dca78ac241b0d485c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 03/49] fix: from_skew_symmetric refuses every matrix that is
 not skew-symmetric

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..6d12e53 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if (!matrix.isApprox(-matrix.transpose())) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From 16d7da7acf3645e54a339857656ddf8e3ee884cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 04/49] fix: transform components of a zero rotation vector are
 not NaN

---
 .../include/eigen_ext/precomputed_transform_components.hpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..c8a1254 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,7 +48,9 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
+    const Eigen::AngleAxis<Scalar> angleaxis{a_, a_ > static_cast<Scalar>(0)
+                                                         ? Eigen::Matrix<Scalar, 3, 1>{r_ / a_}
+                                                         : Eigen::Matrix<Scalar, 3, 1>{Eigen::Matrix<Scalar, 3, 1>::UnitX()}};
     R_ = angleaxis.toRotationMatrix();
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
-- 
2.43.0


From 05b85b0b853c5f37bb29dff7dca7836a677c0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 05/49] fix: reorder_covariance refuses negative boundaries and
 sizes dynamic matrices

---
 eigen_ext/include/eigen_ext/covariance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..e923dea 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -57,8 +57,8 @@ bool is_valid_covariance(const Eigen::MatrixBase<Derived>& covariance, const typ
 
 template<typename Derived>
 Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const Eigen::Index boundary) {
-    if (boundary == 0) {
-        throw std::runtime_error("Reorder boundary cannot be 0.");
+    if (boundary <= 0) {
+        throw std::runtime_error("Reorder boundary must be > 0.");
     }
     const Eigen::Index size = covariance.rows();
     if (size != covariance.cols()) {
@@ -67,7 +67,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
     if (boundary >= size) {
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
-    Derived reordered_covariance;
+    Derived reordered_covariance(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From 87a8ad1f2f7a75e67fd1162ece16186b2937562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 06/49] fix: window sums start from zero instead of an
 uninitialised value

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From 53804a035fd2e288c6714e18093181d14522d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 07/49] fix: StereoDistanceFilter remembers the focal length
 and baseline it was built with

---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From 1b4a954aae498cd4afd45a5d64e7d4889f73d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 08/49] fix: stereo_project divides by the depth of the point

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From 72986e2ad0a57e071d60cbdd7310012617a7220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 09/49] fix: stereo matcher reports no match when the window
 leaves the reference image

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..77ea162 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -43,6 +43,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
     // Setup
     const cv::Mat& reference_image = find_in_right ? left_image : right_image;
     const cv::Mat& search_image = find_in_right ? right_image : left_image;
+    cost = std::numeric_limits<double>::max();
+    matched = false;
 
     // Compute the top left coordinate
     const cv::Point2i reference_image_top_left = top_left(image_keypoint.pt);
@@ -58,7 +60,6 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
     // Iterate over valid x coordinates
     cv::Point2i search_image_top_left = reference_image_top_left;
     int min_cost_top_left_x = search_image_top_left.x;
-    cost = std::numeric_limits<double>::max();
     double second_cost{cost};
     const int increment = find_in_right ? -1 : 1;
     while ((find_in_right && search_image_top_left.x >= 0) ||
@@ -123,6 +124,7 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
     // Setup
     const cv::Mat& reference_image = find_in_right ? left_image : right_image;
     const cv::Mat& search_image = find_in_right ? right_image : left_image;
+    cost = std::numeric_limits<double>::max();
 
     // Compute the top left coordinate
     const cv::Point2i reference_image_top_left = top_left(image_keypoint.pt);
@@ -137,7 +139,6 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
 
     // Find the min cost other image keypoint
     int min_cost_index{-1};
-    cost = std::numeric_limits<double>::max();
     double second_cost{cost};
     for (int i = 0; i < static_cast<int>(search_image_keypoints.size()); ++i) {
         const cv::KeyPoint& search_image_keypoint = search_image_keypoints[i];
-- 
2.43.0


From a6b67e69d274c561757c920ec4b04fa8d219e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 10/49] fix: ratio test of the stereo matcher uses the second
 lowest cost

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 77ea162..3895897 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -70,6 +70,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -154,6 +156,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From ebe19f9abe9cb3fbcae7f21a564630b7b44e2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 11/49] fix: bidirectional stereo matching uses the statistics
 of the reverse window

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 3895897..8d6f138 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -82,7 +82,9 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const MatchingCostFunction reverse_cost_function =
+                    generate_cost_function(reference_image, reverse_reference_image_top_left);
+            const double window_cost = reverse_cost_function(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 568caf8e6a12adf048f7991c67c1b88edb47b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 12/49] fix: correspondences name source points by their index
 in the source cloud

---
 .../include/pointcloud_tools/impl/registration_utilities.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..9b4ec3a 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -32,7 +32,8 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             }
         }
     } else {
-        const std::size_t source_size = registration.getIndices()->size();  // Use indices size
+        const auto& source_indices = *registration.getIndices();
+        const std::size_t source_size = source_indices.size();  // Use indices size
         const auto search = registration.getSearchMethodTarget();
         pcl::Indices index(1);
         std::vector<float> sq_dist(1);
@@ -41,7 +42,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back(source_indices[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From ef3c3d00a72d0c1e9370fee629d3c5fb915f32cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:37 +0000
Subject: [PATCH 13/49] fix: nonlinear registration covariance is defined at
 and near zero rotation

---
 .../lidar/registration_covariance-inl.hpp     | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
index 64d6f83..66e0d6d 100644
--- a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
@@ -5,6 +5,12 @@
 
 namespace serpent {
 
+/**
+ * @brief Rotation angle below which the nonlinear models use the limit of their derivatives at zero rotation. The closed
+ * forms divide by powers of the angle, so they are undefined at zero and inaccurate close to it.
+ */
+constexpr double small_rotation_angle = 1.0e-6;
+
 template<typename Model, typename Scalar>
 Eigen::Matrix<double, 6, 6> censi_iid_covariance(
         typename pcl::Registration<typename Model::PointSource, typename Model::PointTarget, Scalar>& registration,
@@ -279,6 +285,15 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    if (tf.a() < small_rotation_angle) {
+        const Eigen::Matrix3d p_skew = eigen_ext::skew_symmetric(p);
+        const Eigen::Vector3d e = p + tf.t() - q;
+        Eigen::Matrix<double, 6, 6> limit;
+        limit << p_skew.transpose() * p_skew + 0.5 * (e * p.transpose() + p * e.transpose()) -
+                         e.dot(p) * Eigen::Matrix3d::Identity(),
+                p_skew, p_skew.transpose(), Eigen::Matrix3d::Identity();
+        return limit;
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1356,6 +1371,14 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    if (tf.a() < small_rotation_angle) {
+        const Eigen::Matrix3d p_skew = eigen_ext::skew_symmetric(p);
+        const Eigen::Vector3d e = p + tf.t() - q;
+        Eigen::Matrix<double, 6, 6> limit;
+        limit << p_skew - eigen_ext::skew_symmetric(e), -p_skew, Eigen::Matrix3d::Identity(),
+                -Eigen::Matrix3d::Identity();
+        return limit;
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1910,6 +1933,15 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    if (tf.a() < small_rotation_angle) {
+        const Eigen::Vector3d p_cross_n = p.cross(n);
+        const Eigen::Vector3d e = n.dot(p + tf.t() - q) * n;
+        Eigen::Matrix<double, 6, 6> limit;
+        limit << p_cross_n * p_cross_n.transpose() + 0.5 * (e * p.transpose() + p * e.transpose()) -
+                         e.dot(p) * Eigen::Matrix3d::Identity(),
+                p_cross_n * n.transpose(), n * p_cross_n.transpose(), n * n.transpose();
+        return limit;
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -3335,6 +3367,14 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    if (tf.a() < small_rotation_angle) {
+        const Eigen::Vector3d p_cross_n = p.cross(n);
+        const Eigen::Vector3d e = n.dot(p + tf.t() - q) * n;
+        Eigen::Matrix<double, 6, 6> limit;
+        limit << p_cross_n * n.transpose() - eigen_ext::skew_symmetric(e), -p_cross_n * n.transpose(),
+                n * n.transpose(), -n * n.transpose();
+        return limit;
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
-- 
2.43.0


From 6c936c49b2584acdb5dd13fcaec0fc1218ff339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 14/49] fix: pclpointcloud2_utilities: default template
 arguments repeated on definitions; polar_coordinates declared with another
 return type

The header is ill-formed (rejected by current gcc and clang), and the
declared polar_coordinates was never defined, so any call was ambiguous.
---
 .../impl/pclpointcloud2_utilities.hpp         | 24 +++++++++----------
 .../pclpointcloud2_utilities.hpp              |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index a82ea62..c12ec40 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -603,13 +603,13 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return max<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return mean<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -648,7 +648,7 @@ void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const std::string& na
     return scale_and_cast_field<type>(pointcloud, name, scale);
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud) {
     auto get_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto get_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -669,22 +669,22 @@ void set_field_data(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& f
     return create_set_field_data_function<InT>(field)(pointcloud, i, value);
 }
 
-template<typename T = double>
+template<typename T>
 T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     return static_cast<T>(std::sqrt(variance<double>(pointcloud, field, mean)));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return standard_deviation<T>(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -705,7 +705,7 @@ inline T sum(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return sum<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& pointcloud) {
     auto convert_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto convert_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -720,7 +720,7 @@ Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& poin
     return unit_vectors;
 }
 
-template<typename T = double>
+template<typename T>
 T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     double square_residuals_sum_{0.0};
     auto get_field_data = create_get_field_data_function<double>(field);
@@ -732,17 +732,17 @@ T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& fiel
     return static_cast<T>(square_residuals_sum_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return variance(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name));
 }
diff --git a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
index 4d0875c..631e455 100644
--- a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
@@ -269,7 +269,7 @@ void resize(pcl::PCLPointCloud2& pointcloud, const std::uint32_t width, const st
 std::uint32_t row_step(const pcl::PCLPointCloud2& pointcloud);
 
 template<typename T = float>
-std::vector<Eigen::Matrix<T, 3, 1>> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
+Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
 
 void scale_field(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double scale);
 
-- 
2.43.0


From ba489eeef04a9f851be579d6c7bea388c78ff073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:38 +0000
Subject: [PATCH 15/49] fix: frontend: the two arms of the deskew rotation
 conditional have no common type with Eigen 3.4

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6de34bc..9ef7fa3 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -501,7 +501,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
                 (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
-                (deskew_rotation ? skew_transform.rotation() : Eigen::Matrix3d::Identity()));
+                (deskew_rotation ? Eigen::Matrix3d{skew_transform.rotation()} : Eigen::Matrix3d::Identity()));
 
         // Deskew pointcloud
         pcl::PCLPointCloud2::Ptr deskewed_pointcloud = boost::make_shared<pcl::PCLPointCloud2>();
-- 
2.43.0


From a80baa26182d5969beda95f3c3ed0cdd010c42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 16/49] fix: add_fields: place new fields after the whole
 source point

The new fields were placed after the last listed field and the whole source
point was then copied over: with trailing padding (any padded PCL point type)
the copy ran past the end of the buffer, and with fields listed out of offset
order the new field overlapped existing data.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 68aa608..44c026b 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -21,14 +21,14 @@ pcl::PCLPointCloud2 add_fields(const pcl::PCLPointCloud2& src, const std::vector
     dest.height = src.height;
     dest.width = src.width;
     dest.fields = src.fields;
+    // New fields follow all the bytes of a src point (the last listed field need not end the point)
+    dest.point_step = src.point_step;
     for (const auto& name : names) {
-        dest.fields.emplace_back(pcl::PCLPointField{.name = name,
-                .offset = dest.fields.empty() ? 0 : point_step(dest.fields.back()),
-                .datatype = datatype,
-                .count = count});
+        dest.fields.emplace_back(pcl::PCLPointField{
+                .name = name, .offset = dest.point_step, .datatype = datatype, .count = count});
+        dest.point_step = point_step(dest.fields.back());
     }
     dest.is_bigendian = src.is_bigendian;
-    dest.point_step = point_step(dest.fields.back());
     dest.row_step = row_step(dest);
     dest.data.resize(size_bytes(dest));
     dest.is_dense = src.is_dense;
-- 
2.43.0


From e40bcc8267f13e86fb96e493c891c971a1c90cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:44 +0000
Subject: [PATCH 17/49] fix: deskew: a target time before the cloud's stamp
 wrapped around

The difference of the unsigned stamps became about 1.8e13 seconds.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 44c026b..a2a9cf9 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -129,7 +129,9 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
         const Eigen::Quaterniond skew_quaternion = Eigen::Quaterniond(skew.rotation());
 
         // Compute required quantities
-        const double new_time_seconds = static_cast<double>(new_time - src.header.stamp) / 1.0e6;  // us to s
+        // new_time may precede the stamp, so the (unsigned) difference is interpreted as signed. us to s
+        const double new_time_seconds =
+                static_cast<double>(static_cast<std::int64_t>(new_time - src.header.stamp)) / 1.0e6;
         const double new_time_fraction = new_time_seconds / dt;
         const Eigen::Vector3d new_time_translation = new_time_fraction * skew_translation;
         const Eigen::Quaterniond new_time_quaternion =
-- 
2.43.0


From 94a1c5d687e7335013d9e5f2607332fb17d3762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:19 +0000
Subject: [PATCH 18/49] fix: deskew: with no motion the cloud was restamped but
 its point times were kept

Point times are relative to the stamp; after de-skewing every point refers to
the new stamp, as it already did for a moving sensor.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index a2a9cf9..47ca7ec 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -176,6 +176,13 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
             set_z_field_data(dest, i, p_deskew[2]);
             set_t_field_data(dest, i, 0.0f);
         }
+    } else if (has_field(dest, "t")) {
+        // The points have not moved, but their times are relative to the stamp, which has changed
+        auto set_t_field_data = create_set_field_data_function<float>(get_field(dest, "t"));
+        const std::size_t num_points = size_points(dest);
+        for (std::size_t i = 0; i < num_points; ++i) {
+            set_t_field_data(dest, i, 0.0f);
+        }
     }
 }
 
-- 
2.43.0


From 3240916f718a34ec689b6d1898c46a30af17b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 19/49] fix: scale_and_cast_field by name called itself without
 end

---
 .../include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index c12ec40..bbd47d2 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -645,7 +645,7 @@ void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointFi
 
 template<pcl::PCLPointField::PointFieldTypes type>
 void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const std::string& name, const double scale) {
-    return scale_and_cast_field<type>(pointcloud, name, scale);
+    return cast_field_with_scale<type>(pointcloud, name, scale);
 }
 
 template<typename T>
-- 
2.43.0


From b89d755072d75f7cb71cf99ad44173b7ddd06527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:33 +0000
Subject: [PATCH 20/49] fix: Float64MultiArray: converting into a message that
 was used before appended its dimensions again

The message then claimed four dimensions and from_ros refused it.
---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..8e8b750 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -46,6 +46,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From 59148033f20010f5e5971fac267a62b6ea0ee1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:33 +0000
Subject: [PATCH 21/49] fix: BodyFramesTf: a dynamic frame was looked up once
 and broadcast as a static transform

---
 eigen_ros/src/body_frames_tf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..12aef58 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,8 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From 595e89853df2c9e6a2d9a58dfd9ededc5e673788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 22/49] fix: body filter kept only the points within the body
 region instead of removing them

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index c3b593a..9495bef 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -41,6 +41,7 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled) ? "filter/body_filtered_pointcloud"
                                                                                   : final_output_topic;
     if (body_filter_enabled) {
+        body_filter.setNegative(true);  // Remove the points within the body region
         body_filter.setMin(Eigen::Vector4f(nh.param<float>("body_filter/min/x", 0.f),
                 nh.param<float>("body_filter/min/y", 0.f), nh.param<float>("body_filter/min/z", 0.f), 1.f));
         body_filter.setMax(Eigen::Vector4f(nh.param<float>("body_filter/max/x", 0.f),
-- 
2.43.0


From 4ad7cfe6e80c331e9302c05aee5d4db3b032cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 23/49] fix: statistical outlier removal settings were read
 from a namespace no configuration uses

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 9495bef..f400b66 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -71,8 +71,8 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     // Statistical Outlier Removal filter
     output_topic = random_sample_enabled ? "filter/sor_filtered_pointcloud" : final_output_topic;
     if (sor_enabled) {
-        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal_filter/mean_k", 1));
-        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal_filter/stddev_mul_thresh", 0.0));
+        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal/mean_k", 1));
+        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal/stddev_mul_thresh", 0.0));
         statistical_outlier_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
         statistical_outlier_pointcloud_subscriber = nh.subscribe<pcl::PCLPointCloud2>(
                 input_topic, 100, &PointcloudFilter::statistical_outlier_callback, this);
-- 
2.43.0


From c0899b5b8cbb86cbf5fa77ea2319bb5d50afed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:23 +0000
Subject: [PATCH 24/49] fix: GraphManager: collecting values read past the last
 one

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..60578b6 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -454,7 +454,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key >= first && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
-- 
2.43.0


From 38db7d07806d9e349b7448642b83fb59635fc60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:23 +0000
Subject: [PATCH 25/49] fix: GraphManager::values: landmarks were left out when
 the first key has no stereo features

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 60578b6..a16e2c8 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From 7edca879b03cca97e497147c23963946b0ec1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:23 +0000
Subject: [PATCH 26/49] fix: GraphManager: a feature's first observation was
 attributed to the preceding key instead of the frame that made it

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index a16e2c8..724b091 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From 85aafda9a8e479558aebd05990fd173128ec3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:49 +0000
Subject: [PATCH 27/49] fix: GraphManager: landmarks were marginalised by their
 identity instead of with the last state that observes them

---
 .../include/serpent/back_end/graph_manager-inl.hpp    | 11 ++++++++---
 serpent/include/serpent/back_end/graph_manager.hpp    |  6 +++++-
 serpent/src/back_end/graph_manager.cpp                |  8 ++++++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/serpent/include/serpent/back_end/graph_manager-inl.hpp b/serpent/include/serpent/back_end/graph_manager-inl.hpp
index ebabbc4..459d995 100644
--- a/serpent/include/serpent/back_end/graph_manager-inl.hpp
+++ b/serpent/include/serpent/back_end/graph_manager-inl.hpp
@@ -6,22 +6,27 @@
 namespace serpent {
 
 template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
-void GraphManager::add(const int key_, const ValueType& value_) {
+void GraphManager::add(const int key_, const ValueType& value_, const int state_key) {
     assert(key_ >= 0);
     const gtsam::Key raw_key = KeyFunc(key_);
     values_.insert(raw_key, value_);
     new_values_.insert(raw_key, value_);
-    unmarginalised_keys(key_).push_back(raw_key);
+    unmarginalised_keys(state_key).push_back(raw_key);
 }
 
 template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
 void GraphManager::set(const int key_, const ValueType& value_) {
+    set<KeyFunc>(key_, value_, key_);
+}
+
+template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
+void GraphManager::set(const int key_, const ValueType& value_, const int state_key) {
     assert(key_ >= 0);
     const gtsam::Key raw_key = KeyFunc(key_);
     if (values_.exists(raw_key)) {
         update(raw_key, value_);
     } else {
-        add<KeyFunc>(key_, value_);
+        add<KeyFunc>(key_, value_, state_key);
     }
 }
 
diff --git a/serpent/include/serpent/back_end/graph_manager.hpp b/serpent/include/serpent/back_end/graph_manager.hpp
index aa23615..83069fd 100644
--- a/serpent/include/serpent/back_end/graph_manager.hpp
+++ b/serpent/include/serpent/back_end/graph_manager.hpp
@@ -407,11 +407,15 @@ protected:
     gtsam::FastList<gtsam::Key>& unmarginalised_keys(const int key);
 
     template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
-    void add(const int key, const ValueType& value);
+    void add(const int key, const ValueType& value, const int state_key);
 
     template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
     void set(const int key, const ValueType& value);
 
+    // If the value is new, it will be marginalised with the state at state_key.
+    template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
+    void set(const int key, const ValueType& value, const int state_key);
+
     template<typename ValueType>
     void update(const gtsam::Key raw_key, const ValueType& value);
 
diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 724b091..dadc011 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -180,8 +180,12 @@ void GraphManager::create_stereo_factors_and_values(
 
                 // Compute landmark position in world frame
                 const gtsam::Point3 landmark = camera.backproject(feature);
-                // Update values
-                set<S>(id, landmark);
+                // Update values, where a landmark can only be marginalised with the last state that observes it
+                if (has_stereo_landmark(id)) {
+                    unmarginalised_keys(features_im1->first).remove(S(id));
+                    unmarginalised_keys(key_).push_back(S(id));
+                }
+                set<S>(id, landmark, key_);
 
                 // Add current state factor if feature is in i-1
                 auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-- 
2.43.0


From 130fe1558bf38d15702a081794161e2585ac65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:49 +0000
Subject: [PATCH 28/49] fix: ISAM2GraphManager: marginalising an earlier key
 moved the marginalisation key backwards

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index dadc011..abfd1be 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -600,7 +600,7 @@ void ISAM2GraphManager::marginalise(const int key_) {
         throw std::runtime_error("Cannot marginalise before optimisation.");
     }
     auto marginalisation_keys = extract_unmarginalised_keys(key_);
-    marginalisation_key_ = key_;
+    marginalisation_key_ = std::max(marginalisation_key_, key_);
     optimiser.marginalizeLeaves(marginalisation_keys);
 }
 
-- 
2.43.0


From 24de32772d8e3c57000692b075ce2ef141db6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 29/49] fix: integrate_imu integrated a zero duration, which
 GTSAM refuses, for an IMU message exactly at the end

---
 serpent/src/utils/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..c863642 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -35,8 +35,8 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
 
     ros::Time integration_time = start;
     for (auto it = buffer.cbegin(); it != buffer.cend(); ++it) {
-        // Ignore imu messages past end
-        if (it->timestamp > end) {
+        // Ignore imu messages from end onwards, which have nothing left to integrate
+        if (it->timestamp >= end) {
             break;
         }
         // If the next timestamp is after start time, we integrate
-- 
2.43.0


From 56a3e33ca485187b6ec136096740e9b241711d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 30/49] fix: protected_sleep returned with the mutex locked on
 shutdown, which blocked the other callbacks

---
 serpent/src/utils/utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index c863642..a0c69ca 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -82,10 +82,11 @@ bool protected_sleep(std::mutex& mutex, const double sleep_period_, const bool a
         sleep_period.sleep();
         mutex.lock();
     }
-    if (!leave_locked) {
+    const bool ok = ros::ok();
+    if (!leave_locked || !ok) {
         mutex.unlock();
     }
-    return ros::ok();
+    return ok;
 }
 
 void update_preintegration_params(gtsam::PreintegrationParams& params, const Eigen::Matrix3d& accelerometer_covariance,
-- 
2.43.0


From 12be3bca68cbb589ea78f9f87051660a31eaaeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 31/49] fix: frontend: a new state without any barometer
 measurement dereferenced an empty buffer, and only one of several waiting
 states was served per measurement

---
 serpent/src/front_end/frontend.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 9ef7fa3..94b058f 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -130,7 +130,7 @@ Frontend::Frontend()
     // Barometer
     nh.param<bool>("optimisation/factors/barometer", barometer_enabled, true);
     if (barometer_enabled) {
-        barometer_publisher = nh.advertise<sensor_msgs::FluidPressure>("frontend/barometer", 1);
+        barometer_publisher = nh.advertise<sensor_msgs::FluidPressure>("frontend/barometer", 100);
         barometer_subscriber =
                 nh.subscribe<sensor_msgs::FluidPressure>("input/barometer", 100, &Frontend::barometer_callback, this);
     }
@@ -160,7 +160,7 @@ void Frontend::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pr
 }
 
 void Frontend::barometer_try_publish() {
-    if (!barometer_timestamp_buffer.empty()) {
+    while (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
         // Special case (first measurement) where barometer data might not preceded first state timestamp
         if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {
             ROS_WARN_STREAM("No barometer measurement prior to new state timestamp. Approximating with measurement "
@@ -171,7 +171,7 @@ void Frontend::barometer_try_publish() {
             barometer_publisher.publish(pressure);
             barometer_timestamp_buffer.pop_front();
         } else if (barometer_buffer.size() >= 2 &&
-                   barometer_buffer.back()->header.stamp > barometer_timestamp_buffer.front()) {
+                   barometer_buffer.back()->header.stamp >= barometer_timestamp_buffer.front()) {
             // Remove old barometer messages until front is the first measurement before the state time
             while (barometer_buffer.at(1)->header.stamp < barometer_timestamp_buffer.front()) {
                 barometer_buffer.pop_front();
@@ -181,6 +181,9 @@ void Frontend::barometer_try_publish() {
             barometer_publisher.publish(interpolate_pressure(
                     *barometer_buffer.front(), *barometer_buffer.at(1), barometer_timestamp_buffer.front()));
             barometer_timestamp_buffer.pop_front();
+        } else {
+            // Wait for a measurement after the state time
+            break;
         }
     }
 }
-- 
2.43.0


From 3f34cea190db16cc8e2eb2a167121e697e5f9bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 32/49] fix: frontend: the IMU-rate odometry added the
 gyroscope bias to the angular velocity instead of removing it

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 94b058f..db174a6 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -239,7 +239,7 @@ void Frontend::imu_callback(const sensor_msgs::Imu::ConstPtr& msg) {
         ROS_WARN_ONCE("TODO FIX: angular velocity must be converted from IMU frame to body frame - is this even "
                       "possible? A rotation may be a good approximation.");
         const Eigen::Vector3d angular_velocity =
-                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity + imu_biases.gyroscope());
+                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity - imu_biases.gyroscope());
 
         // Publish current state as odometry output
         auto odometry = boost::make_shared<nav_msgs::Odometry>();
-- 
2.43.0


From 5ed3a2c52573b79bae97de625341dd888ed28350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 33/49] fix: frontend: the published base_link pose was the
 pose of the body frame

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index db174a6..365e13d 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -295,7 +295,7 @@ void Frontend::optimised_odometry_callback(const serpent::ImuBiases::ConstPtr& i
 
         // Publish T_W^{BL} pose with covariance
         auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(
-                world_odometry.pose_stamped());  // map_to_base_link);
+                map_to_base_link);
         map_to_base_link_pose.header.frame_id = optimised_odometry_msg->header.frame_id;
         pose_publisher.publish(map_to_base_link_pose);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 56fb8377e914de98665446de31b19b0338e7af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 34/49] fix: frontend: IMU measurements that arrived after the
 scan were left out of the interval of the state

---
 serpent/src/front_end/frontend.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 365e13d..34d83a3 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -379,6 +379,12 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
+        // Wait for IMU message at or after the new state time, so that all measurements up to it have been received.
+        if (!protected_sleep(preintegration_mutex, 0.01, false, false,
+                    [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
+            return;
+        };
+
         // Initialised: publish the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
         if (initialised) {
@@ -396,7 +402,8 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 // Add the IMU measurement if it is between the pointcloud timestamps or is the first measurement before
                 // the previous pointcloud start time (and next measurement isn't exactly the start time).
                 if (it->timestamp < new_state_time &&
-                        (it->timestamp > previous_state_time || std::next(it)->timestamp > previous_state_time)) {
+                        (it->timestamp > previous_state_time || std::next(it) == imu_buffer.cend() ||
+                                std::next(it)->timestamp > previous_state_time)) {
                     imu_s2s->measurements.push_back(eigen_ros::to_ros<sensor_msgs::Imu>(*it));
                 }
             }
@@ -405,12 +412,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             ROS_DEBUG_STREAM(
                     "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
         } else {
-            // Wait for IMU message after deskew timestamp (for safety, as should already be received).
-            if (!protected_sleep(preintegration_mutex, 0.01, false, false,
-                        [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
-                return;
-            };
-
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
 
-- 
2.43.0


From bdd6e1b286592391a97cbc6636023f564733e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 35/49] fix: frontend: the deskew motion was changed from the
 body to the lidar frame with the inverse transform

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 34d83a3..734577f 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -500,7 +500,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
 
         // Transform skew_transform from body frame into lidar frame
-        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame("lidar"));
+        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-- 
2.43.0


From 46807d1ea28f8af88c1fbc96ddfbc0eea45c2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 36/49] fix: mapping: correcting a keyframe dereferenced the
 null pose cloud of the PAST extraction method

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 7dd2213..5424024 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -295,8 +295,10 @@ void Mapping<PointT>::update_map(const eigen_ros::PoseStamped& frame_pose_stampe
     auto it = map.find(frame_pose_stamped.timestamp);
     if (it != map.end()) {
         it->second.pose = frame_pose_stamped;
-        pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
-                frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        if (pose_cloud) {
+            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
+                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        }
     }
 }
 
-- 
2.43.0


From ceb33dc64d99b57b237076b9627da7659603c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 37/49] fix: mapping: the global map was filtered according to
 the setting for local maps

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 5424024..caf4709 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -273,7 +273,7 @@ bool Mapping<PointT>::publish_map_service_callback(std_srvs::Empty::Request&, st
     }
 
     // Filtering/Downsampling
-    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;
+    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;
 
     // Publish
     global_map_publisher.publish(filtered_pointcloud);
-- 
2.43.0


From a7e72f4bc376c2ea025c05f6d601faf6d576007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 38/49] fix: refuse invalid instead of valid registration
 covariances

---
 serpent/src/back_end/optimisation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a834845..f3b68dc 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -273,8 +273,9 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
     const gtsam::Pose3 registration_pose_gtsam =
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
-    // Check if valid covariance matrix
-    if (eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    // Check if valid covariance matrix (symmetric up to rounding)
+    const double symmetry_precision = 1.0e-6 * registration_pose.data.covariance.cwiseAbs().maxCoeff();
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance, symmetry_precision)) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From 580a755e888d6c7b01656f76318b1346e84eb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 39/49] fix: do not read the time of a state before there is
 one

---
 serpent/src/back_end/optimisation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index f3b68dc..11ecb8d 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -399,7 +399,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
 
     // Wait for imu bias to be optimised (when optimisation has run)
     graph_mutex.lock();
-    ROS_WARN_STREAM_COND(gm->opt_key() != gm->key("imu"),
+    ROS_WARN_STREAM_COND(gm->opt_key() >= 0 && gm->opt_key() != gm->key("imu"),
             "Waiting for optimisation (key = " << gm->opt_key() << ", t = " << gm->timestamp(gm->opt_key())
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
                                                << gm->timestamp("imu") << "). SERPENT may be running slow.");
-- 
2.43.0


From 08d83f6f73eaf7adab47d5f364452bc90a1f20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 40/49] fix: publish the velocity of the optimised state when
 stereo factors complete it

---
 serpent/src/back_end/optimisation.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 11ecb8d..7edcd30 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -743,13 +743,18 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
             }
 
             // Optimise and publish
-            if (gm->minimum_key(0) == gm->key("stereo") && gm->key("stereo") > 0) {
-                optimise_and_publish(gm->key("stereo"));
+            const int stereo_key = gm->key("stereo");
+            if (gm->minimum_key(0) == stereo_key && stereo_key > 0) {
+                // Optimise
+                const auto optimisation_result = optimise(stereo_key);
 
                 // Update velocity if no IMU factors
                 if (!imu_factors_enabled) {
                     update_velocity_from_transforms("stereo");
                 }
+
+                // Publish
+                publish(stereo_key, optimisation_result);
             }
         }
     } while (features_in_future);
-- 
2.43.0


From ed792520ba7156ee545c7980067654a2bd43cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 41/49] fix: refuse unknown robust stereo noise types

---
 serpent/src/back_end/optimisation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 7edcd30..c7020eb 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -230,6 +230,8 @@ Optimisation::Optimisation() : nh("serpent"), body_frames("serpent") {
                 const gtsam::noiseModel::mEstimator::Base::ReweightScheme reweight_scheme = to_reweight_scheme(
                         nh.param<std::string>("stereo_factors/robust/welsch/reweight_scheme", "BLOCK"));
                 robust_noise_model = gtsam::noiseModel::mEstimator::Welsch::Create(c, reweight_scheme);
+            } else {
+                throw std::runtime_error("Robust stereo noise type \'" + robust_noise_type + "\' not recognised.");
             }
             stereo_noise_model = gtsam::noiseModel::Robust::Create(robust_noise_model, stereo_measurement_covariance);
             ROS_INFO_STREAM("Created robust stereo noise model of type \'" << robust_noise_type << "\'");
-- 
2.43.0


From bc4f01b6fd9e66316e04d6adf22ce70de8d14be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 42/49] fix: set the key point counts of the first frame's
 statistics

---
 .../src/front_end/stereo/stereo_feature_tracker.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..f771c47 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -101,10 +101,6 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
         LRF2FMatches f2f_matches;
         new_track_hypotheses = track_previous_keypoints(images, all_sof_keypoints, f2f_matches);
         ROS_DEBUG_STREAM("Tracked previous keypoints");
-        if (stats) {
-            stats->get().tracked_kp_count[0] = new_track_hypotheses.keypoints[0].size();
-            stats->get().tracked_kp_count[1] = new_track_hypotheses.keypoints[1].size();
-        }
         if (intermediate_images) {
             for (std::size_t lr = 0; lr < 2; ++lr) {
                 cv::drawMatches(previous_images[lr], previous_track_data.keypoints[lr], images[lr],
@@ -119,9 +115,12 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
             new_keypoints[lr] = remove_close_keypoints(new_keypoints[lr], new_track_hypotheses.keypoints[lr]);
             ROS_DEBUG_STREAM("Removed keypoints close to already tracked keypoints in the "
                              << (lr == 0 ? "left" : "right") << " frame");
-            if (stats) {
-                stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
-            }
+        }
+    }
+    if (stats) {
+        for (std::size_t lr = 0; lr < 2; ++lr) {
+            stats->get().tracked_kp_count[lr] = new_track_hypotheses.keypoints[lr].size();
+            stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
         }
     }
 
-- 
2.43.0


From 554e4cc7f4cb669d6b88ef0a0fe36a2a4c9e1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 43/49] fix: apply the stereo filter to new matches

---
 serpent/src/front_end/stereo/stereo_feature_tracker.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index f771c47..a6c56dd 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -174,6 +174,12 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
             create_filtered_new_matches(new_keypoints, right_keypoint_indices, stereo_match_costs, false);
     ROS_DEBUG_STREAM("Created " << new_filtered_keypoint_matches.size() << " filtered new matches");
 
+    // Filter new stereo matches by stereo geometry
+    new_filtered_keypoint_matches.matches = stereo_filter->filter(new_filtered_keypoint_matches.keypoints[0],
+            new_filtered_keypoint_matches.keypoints[1], new_filtered_keypoint_matches.matches);
+    new_filtered_keypoint_matches.keypoints = extract_matched_keypoints(
+            new_filtered_keypoint_matches.keypoints, new_filtered_keypoint_matches.matches);
+
     // Filter new stereo matches by distance
     if (stereo_distance_filter) {
         new_filtered_keypoint_matches.matches =
-- 
2.43.0


From e2617a7617d07d837d6e9243682ecc21718dbbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 44/49] fix: read the SIFT contrast threshold from the
 parameter the configuration sets

---
 serpent/src/front_end/stereo/stereo_factor_finder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 005b2dc..8b29634 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -108,7 +108,7 @@ template<>
 cv::Ptr<cv::SIFT> create_from_params<cv::SIFT>(const ros::NodeHandle& nh) {
     const int num_features = nh.param<int>("stereo_tracking/detector/sift/num_features", 10);
     const int num_octave_layers = nh.param<int>("stereo_tracking/detector/sift/num_octave_layers", 3);
-    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/constrast_threshold", 0.04);
+    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/contrast_threshold", 0.04);
     const double edge_threshold = nh.param<double>("stereo_tracking/detector/sift/edge_threshold", 10.0);
     const double sigma = nh.param<double>("stereo_tracking/detector/sift/sigma", 1.6);
     return cv::SIFT::create(num_features, num_octave_layers, constrast_threshold, edge_threshold, sigma);
-- 
2.43.0


From b83ff84471d65edee82cc0f270dc79e0d0cd93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 45/49] fix: read the optical flow settings from the parameters
 the configuration sets

---
 .../front_end/stereo/stereo_factor_finder.cpp   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 8b29634..68f5456 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -241,16 +241,17 @@ StereoFactorFinder::StereoFactorFinder() : nh("serpent"), it(nh), stereo_sync(10
             nh.param<std::string>("stereo_tracking/sparse_optical_flow/type", "PyrLK");
     if (sparse_optical_flow_type == "PyrLK") {
         const std::vector<int> win_size_vec =
-                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/win_size", {{21, 21}});
+                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/pyrlk/win_size", {{21, 21}});
         const cv::Size win_size = cv::Size{win_size_vec.at(0), win_size_vec.at(1)};
-        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/max_level", 3);
+        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/max_level", 3);
         const cv::TermCriteria term_criteria = cv::TermCriteria{
-                to_term_criteria_type(
-                        nh.param<std::string>("stereo_tracking/sparse_optical_flow/term_criteria/type", "COUNT+EPS")),
-                nh.param<int>("stereo_tracking/sparse_optical_flow/term_criteria/max_count", 30),
-                nh.param<double>("stereo_tracking/sparse_optical_flow/term_criteria/epsilon", 0.01)};
-        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/flags", 0);
-        const double min_eig_threshold = nh.param<double>("stereo_tracking/sparse_optical_flow/min_eig_threshold", 0);
+                to_term_criteria_type(nh.param<std::string>(
+                        "stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", "COUNT+EPS")),
+                nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/max_count", 30),
+                nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/epsilon", 0.01)};
+        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/flags", 0);
+        const double min_eig_threshold =
+                nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/min_eig_threshold", 0);
         sparse_optical_flow =
                 cv::SparsePyrLKOpticalFlow::create(win_size, max_level, term_criteria, flags, min_eig_threshold);
     } else if (sparse_optical_flow_type == "RLOF") {
-- 
2.43.0


From a1ba0cf64d93f0f0bd645e7e2a6a4cacf7281de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 46/49] fix: accept image rotations of 0 degrees and refuse
 those that are not a multiple of 90

---
 .../include/camera_tools/image_operations.hpp      |  2 ++
 camera_tools/src/image_operations.cpp              | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/camera_tools/include/camera_tools/image_operations.hpp b/camera_tools/include/camera_tools/image_operations.hpp
index e394fe8..373abf3 100644
--- a/camera_tools/include/camera_tools/image_operations.hpp
+++ b/camera_tools/include/camera_tools/image_operations.hpp
@@ -34,6 +34,8 @@ public:
     sensor_msgs::CameraInfo apply(const sensor_msgs::CameraInfo& info) override;
 
 private:
+    // False for a rotation of 0 degrees
+    bool rotates{true};
     cv::RotateFlags option;
 };
 
diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..01a8893 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -8,20 +8,25 @@ Rotate::Rotate(const cv::RotateFlags option)
     : option(option) {}
 
 Rotate::Rotate(int degrees_clockwise) {
-    degrees_clockwise = degrees_clockwise % 360;
-    if (degrees_clockwise <= 0) {
-        throw std::runtime_error("Rotate degrees_clockwise must be > 0");
+    if (degrees_clockwise < 0 || degrees_clockwise % 90 != 0) {
+        throw std::runtime_error("Rotate degrees_clockwise must be a non-negative multiple of 90");
     }
+    degrees_clockwise = degrees_clockwise % 360;
     if (degrees_clockwise == 90) {
         option = cv::RotateFlags::ROTATE_90_CLOCKWISE;
     } else if (degrees_clockwise == 180) {
         option = cv::RotateFlags::ROTATE_180;
     } else if (degrees_clockwise == 270) {
         option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
+    } else {
+        rotates = false;
     }
 }
 
 cv::Mat Rotate::apply(const cv::Mat& in) {
+    if (!rotates) {
+        return in.clone();
+    }
     cv::Mat out;
     cv::rotate(in, out, option);
     return out;
@@ -29,6 +34,9 @@ cv::Mat Rotate::apply(const cv::Mat& in) {
 
 sensor_msgs::CameraInfo Rotate::apply(const sensor_msgs::CameraInfo& in) {
     sensor_msgs::CameraInfo out = in;
+    if (!rotates) {
+        return out;
+    }
     switch (option) {
         case cv::RotateFlags::ROTATE_90_CLOCKWISE:
             // Swap width/height, fx/fy
-- 
2.43.0


From c55d6b5be1e5717c940c1f75be5dff8ba7bd4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 47/49] fix: check the type of an image's operations

---
 camera_tools/src/split_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/camera_tools/src/split_image.cpp b/camera_tools/src/split_image.cpp
index 33fbef4..44cd65b 100644
--- a/camera_tools/src/split_image.cpp
+++ b/camera_tools/src/split_image.cpp
@@ -58,7 +58,7 @@ void ImageSplitter::parse_configuration() {
                 .camera_info = camera_info});
         if (image.hasMember("operations")) {
             XmlRpc::XmlRpcValue operations = image["operations"];
-            if (region.getType() != XmlRpc::XmlRpcValue::TypeStruct) {
+            if (operations.getType() != XmlRpc::XmlRpcValue::TypeStruct) {
                 throw std::runtime_error("operations for images[" + std::to_string(i) + "] was not a struct");
             }
             for (XmlRpc::XmlRpcValue::const_iterator it = operations.begin(); it != operations.end(); ++it) {
-- 
2.43.0


From 0587cdcc1bdcd50d183fa591aeed22e9013943f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 48/49] fix: publish the IMU interval only after the previous
 state has been used

---
 serpent/src/front_end/frontend.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 734577f..1a51e3f 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -385,14 +385,15 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             return;
         };
 
-        // Initialised: publish the IMU messages between the deskew times of the pointclouds.
+        // Initialised: accumulate the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
+        serpent::ImuArray::Ptr imu_s2s;
         if (initialised) {
-            // Accumulate and publish the IMU measurements required for registration of the previous two pointclouds.
+            // Accumulate the IMU measurements required for registration of the previous two pointclouds.
             // This spans from the previous to the current state time. Remove any IMU measurements older
             // than the first of these.
             std::lock_guard<std::mutex> guard{imu_data_mutex};
-            auto imu_s2s = boost::make_shared<serpent::ImuArray>();
+            imu_s2s = boost::make_shared<serpent::ImuArray>();
             imu_s2s->start_timestamp = previous_state_time;
             imu_s2s->end_timestamp = new_state_time;
             if (imu_buffer.front().timestamp > previous_state_time) {
@@ -408,9 +409,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 }
             }
             delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);
-            imu_s2s_publisher.publish(imu_s2s);
-            ROS_DEBUG_STREAM(
-                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
         } else {
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
@@ -455,7 +453,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
 
         // Wait for previous imu_biases (& world_state) and IMU message past end of sweep and start of new point cloud.
         // Then imu_biases, world_state, world_odometry and preintegration_params can be used without mutex locking
-        // because the optimised odometry callback cannot trigger until after the deskewed pointcloud is published.
+        // because the optimised odometry callback cannot trigger until after the IMU measurements are published.
         if (!protected_sleep(preintegration_mutex, 0.01, false, false, [this, previous_pointcloud_end]() {
                 return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end;
             })) {
@@ -515,6 +513,14 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         ROS_INFO_STREAM(
                 "Deskewed pointcloud to " << new_state_time << " in " << (ros::WallTime::now() - tic).toSec() << " s.");
 
+        // Publish IMU measurements. Without registration factors these alone trigger the optimisation of the new state,
+        // so they must not be published while the optimised previous state is still required.
+        if (imu_s2s) {
+            imu_s2s_publisher.publish(imu_s2s);
+            ROS_DEBUG_STREAM(
+                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
+        }
+
         // Publish deskewed pointcloud
         deskewed_pointcloud_publisher.publish(deskewed_pointcloud);
 
-- 
2.43.0


From 6fed3a4c314f50bd4a32ac58071d875e29e15155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 49/49] fix: never run with fewer threads than there are
 callbacks that wait, plus one

---
 serpent/src/nodes/backend_node.cpp  | 12 +++++++++++-
 serpent/src/nodes/frontend_node.cpp |  9 ++++++++-
 serpent/src/nodes/node.cpp          | 12 +++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/serpent/src/nodes/backend_node.cpp b/serpent/src/nodes/backend_node.cpp
index 199b5cb..dae8088 100644
--- a/serpent/src/nodes/backend_node.cpp
+++ b/serpent/src/nodes/backend_node.cpp
@@ -40,10 +40,20 @@ int main(int argc, char** argv) {
     }
 
     // Start the Node
-    const int threads = nh.param<int>("threads", 4);
+    int threads = nh.param<int>("threads", 4);
     if (threads < 1) {
         throw std::runtime_error("Thread count must be >= 1, was " + std::to_string(threads));
     }
+    // A callback that waits for the output of other callbacks keeps its thread. One more thread than there are such
+    // callbacks is needed, otherwise they could all wait for a callback that never gets a thread.
+    const int minimum_threads = 1 /* other callbacks */ + 1 /* optimisation IMU intervals */
+                                + (nh.param<bool>("optimisation/factors/registration", true) ? 1 : 0)
+                                + (nh.param<bool>("optimisation/factors/stereo", true) ? 1 : 0)
+                                + (nh.param<bool>("optimisation/factors/barometer", true) ? 1 : 0);
+    if (threads < minimum_threads) {
+        ROS_WARN_STREAM("Thread count " << threads << " is too low and was increased to " << minimum_threads << ".");
+        threads = minimum_threads;
+    }
     ros::AsyncSpinner spinner(threads);
     spinner.start();
     ROS_INFO_STREAM("Spinning with " << std::to_string(threads) << " threads");
diff --git a/serpent/src/nodes/frontend_node.cpp b/serpent/src/nodes/frontend_node.cpp
index 9c0fa2f..e81ec06 100644
--- a/serpent/src/nodes/frontend_node.cpp
+++ b/serpent/src/nodes/frontend_node.cpp
@@ -52,10 +52,17 @@ int main(int argc, char** argv) {
     }
 
     // Start the Node
-    const int threads = nh.param<int>("threads", 4);
+    int threads = nh.param<int>("threads", 4);
     if (threads < 1) {
         throw std::runtime_error("Thread count must be >= 1, was " + std::to_string(threads));
     }
+    // A callback that waits for the output of other callbacks keeps its thread. One more thread than there are such
+    // callbacks is needed, otherwise they could all wait for a callback that never gets a thread.
+    const int minimum_threads = 1 /* other callbacks */ + 1 /* front-end scans */;
+    if (threads < minimum_threads) {
+        ROS_WARN_STREAM("Thread count " << threads << " is too low and was increased to " << minimum_threads << ".");
+        threads = minimum_threads;
+    }
     ros::AsyncSpinner spinner(threads);
     spinner.start();
     ROS_INFO_STREAM("Spinning with " << std::to_string(threads) << " threads");
diff --git a/serpent/src/nodes/node.cpp b/serpent/src/nodes/node.cpp
index 24bfedb..f7b5b1b 100644
--- a/serpent/src/nodes/node.cpp
+++ b/serpent/src/nodes/node.cpp
@@ -72,10 +72,20 @@ int main(int argc, char** argv) {
     }
 
     // Start the Node
-    const int threads = nh.param<int>("threads", 4);
+    int threads = nh.param<int>("threads", 4);
     if (threads < 1) {
         throw std::runtime_error("Thread count must be >= 1, was " + std::to_string(threads));
     }
+    // A callback that waits for the output of other callbacks keeps its thread. One more thread than there are such
+    // callbacks is needed, otherwise they could all wait for a callback that never gets a thread.
+    const int minimum_threads = 1 /* other callbacks */ + 1 /* front-end scans */ + 1 /* optimisation IMU intervals */
+                                + (nh.param<bool>("optimisation/factors/registration", true) ? 1 : 0)
+                                + (nh.param<bool>("optimisation/factors/stereo", true) ? 1 : 0)
+                                + (nh.param<bool>("optimisation/factors/barometer", true) ? 1 : 0);
+    if (threads < minimum_threads) {
+        ROS_WARN_STREAM("Thread count " << threads << " is too low and was increased to " << minimum_threads << ".");
+        threads = minimum_threads;
+    }
     ros::AsyncSpinner spinner(threads);
     spinner.start();
     ROS_INFO_STREAM("Spinning with " << std::to_string(threads) << " threads");
-- 
2.43.0

