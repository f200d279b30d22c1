From 214bd88b5e2fa1b2230968faa62ba0bad622ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 01/59] fix: remove default template arguments repeated in
 pclpointcloud2_utilities definitions

---
 .../impl/pclpointcloud2_utilities.hpp         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index a82ea62..c12ec40 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -603,13 +603,13 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return max<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return mean<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -648,7 +648,7 @@ void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const std::string& na
     return scale_and_cast_field<type>(pointcloud, name, scale);
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud) {
     auto get_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto get_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -669,22 +669,22 @@ void set_field_data(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& f
     return create_set_field_data_function<InT>(field)(pointcloud, i, value);
 }
 
-template<typename T = double>
+template<typename T>
 T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     return static_cast<T>(std::sqrt(variance<double>(pointcloud, field, mean)));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return standard_deviation<T>(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -705,7 +705,7 @@ inline T sum(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return sum<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& pointcloud) {
     auto convert_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto convert_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -720,7 +720,7 @@ Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& poin
     return unit_vectors;
 }
 
-template<typename T = double>
+template<typename T>
 T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     double square_residuals_sum_{0.0};
     auto get_field_data = create_get_field_data_function<double>(field);
@@ -732,17 +732,17 @@ T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& fiel
     return static_cast<T>(square_residuals_sum_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return variance(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name));
 }
-- 
2.43.0


From 7542abdfc4f46d597be12a937be34ddab979bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 02/59] fix: declare polar_coordinates with the return type it
 is defined with

---
 .../include/pointcloud_tools/pclpointcloud2_utilities.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
index 4d0875c..631e455 100644
--- a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
@@ -269,7 +269,7 @@ void resize(pcl::PCLPointCloud2& pointcloud, const std::uint32_t width, const st
 std::uint32_t row_step(const pcl::PCLPointCloud2& pointcloud);
 
 template<typename T = float>
-std::vector<Eigen::Matrix<T, 3, 1>> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
+Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
 
 void scale_field(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double scale);
 
-- 
2.43.0


From 5c3c91e01210217095d8e5aadff2d3f927a3e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 03/59] fix: compile the deskew rotation selection with an
 Eigen whose rotation() is not a plain matrix

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6de34bc..43cbfa4 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -501,7 +501,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
                 (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
-                (deskew_rotation ? skew_transform.rotation() : Eigen::Matrix3d::Identity()));
+                (deskew_rotation ? Eigen::Matrix3d(skew_transform.rotation()) : Eigen::Matrix3d::Identity()));
 
         // Deskew pointcloud
         pcl::PCLPointCloud2::Ptr deskewed_pointcloud = boost::make_shared<pcl::PCLPointCloud2>();
-- 
2.43.0


From 410f2898b93b6deb3d7e8630878b0774f3377581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 04/59] fix: divide by the planar range in the azimuth of
 cartesian_to_polar

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..8069702 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From 9bd63314787eb39be0f5f56d6ef0f1035d0f8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 05/59] fix: implement change_twist_reference_frame

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 8069702..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From 4c663b6619be6b0928a2837a6fd0d8de57766e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 06/59] fix: from_skew_symmetric rejects every matrix that is
 not skew-symmetric

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..6d12e53 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if (!matrix.isApprox(-matrix.transpose())) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From d507c79816f4d2adc2e68f25247a0f53846c3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 07/59] fix: is_symmetric does not read outside a matrix that
 is not square

---
 eigen_ext/include/eigen_ext/matrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 6d12e53..be986af 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -97,6 +97,9 @@ bool is_positive_definite(const typename Eigen::EigenBase<Derived>& m) {
 
 template<typename Derived>
 bool is_symmetric(const Eigen::DenseBase<Derived>& m, const typename Derived::Scalar precision) {
+    if (m.rows() != m.cols()) {
+        return false;
+    }
     for (int r = 0; r < m.rows() - 1; ++r) {
         for (int c = r + 1; c < m.cols(); ++c) {
             if (std::abs(m(r, c) - m(c, r)) > precision) {
-- 
2.43.0


From 7fb72786781f1656295e2eb24b81149118017361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 08/59] fix: reorder_covariance sizes dynamic matrices and
 rejects negative boundaries

---
 eigen_ext/include/eigen_ext/covariance.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..7967014 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -57,8 +57,8 @@ bool is_valid_covariance(const Eigen::MatrixBase<Derived>& covariance, const typ
 
 template<typename Derived>
 Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const Eigen::Index boundary) {
-    if (boundary == 0) {
-        throw std::runtime_error("Reorder boundary cannot be 0.");
+    if (boundary <= 0) {
+        throw std::runtime_error("Reorder boundary must be greater than 0.");
     }
     const Eigen::Index size = covariance.rows();
     if (size != covariance.cols()) {
@@ -68,6 +68,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
     Derived reordered_covariance;
+    reordered_covariance.resize(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From fb4550b853e5f8b5153b6d6a397a6eec21a4e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 09/59] fix: zero rotation vector gives the identity rotation
 in PrecomputedTransformComponents

---
 .../include/eigen_ext/precomputed_transform_components.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..8e7b70f 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,7 +48,7 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
+    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_.normalized()};
     R_ = angleaxis.toRotationMatrix();
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
-- 
2.43.0


From 75d2bd36b75b13b3ea368ac3cf96adc81011d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 10/59] fix: guard precomputed_transform_components.hpp against
 repeated inclusion

---
 .../include/eigen_ext/precomputed_transform_components.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index 8e7b70f..376065b 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -1,3 +1,6 @@
+#ifndef EIGEN_EXT_PRECOMPUTED_TRANSFORM_COMPONENTS_HPP
+#define EIGEN_EXT_PRECOMPUTED_TRANSFORM_COMPONENTS_HPP
+
 #include <Eigen/Core>
 #include <Eigen/Geometry>
 
@@ -91,3 +94,5 @@ inline const Scalar PrecomputedTransformComponents<Scalar>::cosa() const {
 }
 
 }
+
+#endif
-- 
2.43.0


From fafc78274f20f2bf6fc8c7310ca659b14961da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 11/59] fix: initialise the padding of a PointAngleAxis
 constructed from a pose

---
 pointcloud_tools/src/point_types.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/point_types.cpp b/pointcloud_tools/src/point_types.cpp
index 22d2999..42864cd 100644
--- a/pointcloud_tools/src/point_types.cpp
+++ b/pointcloud_tools/src/point_types.cpp
@@ -123,23 +123,27 @@ PointAngleAxis::PointAngleAxis(const _PointAngleAxis& p) {
     data_r[3] = 0.0f;
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) {
+PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) : PointAngleAxis() {
     setPose(pose);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis)
+    : PointAngleAxis() {
     setPose(position, angle_axis);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion)
+    : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion)
+    : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix)
+    : PointAngleAxis() {
     setPose(position, rotation_matrix);
 }
 
-- 
2.43.0


From 7505d2a28f967b8aed7f862b04819deff9ed3415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:20 +0000
Subject: [PATCH 12/59] fix: registration correspondences refer to source
 points when indices select a subset

---
 .../include/pointcloud_tools/impl/registration_utilities.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..50c3339 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -41,7 +41,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back((*registration.getIndices())[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From b6bc21e395dcc0ba063eb9a31dc1581ab89b826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:36 +0000
Subject: [PATCH 13/59] fix: nonlinear registration cost derivatives are finite
 at zero rotation

---
 .../lidar/registration_covariance-inl.hpp     | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
index 64d6f83..b3c66ab 100644
--- a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
@@ -5,6 +5,9 @@
 
 namespace serpent {
 
+// Rotation angle [rad] below which the nonlinear models use the derivatives in the limit of a zero rotation vector
+constexpr double SMALL_ROTATION_ANGLE{1.0e-5};
+
 template<typename Model, typename Scalar>
 Eigen::Matrix<double, 6, 6> censi_iid_covariance(
         typename pcl::Registration<typename Model::PointSource, typename Model::PointTarget, Scalar>& registration,
@@ -279,6 +282,16 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    // Limit for a zero rotation vector, where the expressions below are singular
+    if (tf.a() < SMALL_ROTATION_ANGLE) {
+        const Eigen::Vector3d e = p + tf.r().cross(p) + tf.t() - q;
+        Eigen::Matrix<double, 6, 6> half_d2F_dx2 =
+                PointToPointIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dx2(tf, p, q);
+        half_d2F_dx2.block<3, 3>(0, 0) +=
+                0.5 * (e * p.transpose() + p * e.transpose()) - e.dot(p) * Eigen::Matrix3d::Identity();
+        return half_d2F_dx2;
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1356,6 +1369,11 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    // Limit for a zero rotation vector, where the expressions below are singular
+    if (tf.a() < SMALL_ROTATION_ANGLE) {
+        return PointToPointIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dzdx(tf, p, q);
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1910,6 +1928,16 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    // Limit for a zero rotation vector, where the expressions below are singular
+    if (tf.a() < SMALL_ROTATION_ANGLE) {
+        const double e = n.dot(p + tf.r().cross(p) + tf.t() - q);
+        Eigen::Matrix<double, 6, 6> half_d2F_dx2 =
+                PointToPlaneIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dx2(tf, p, q, n);
+        half_d2F_dx2.block<3, 3>(0, 0) +=
+                e * (0.5 * (n * p.transpose() + p * n.transpose()) - n.dot(p) * Eigen::Matrix3d::Identity());
+        return half_d2F_dx2;
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -3335,6 +3363,11 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    // Limit for a zero rotation vector, where the expressions below are singular
+    if (tf.a() < SMALL_ROTATION_ANGLE) {
+        return PointToPlaneIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dzdx(tf, p, q, n);
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
-- 
2.43.0


From 6f892652ca11f674865ae29c16c129bfcbbefee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 14/59] fix: stereo_project uses the depth of the point

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From c83d2d221fae91cf8a50a4a62b5a42f390a95223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:53 +0000
Subject: [PATCH 15/59] fix: initialise the sums of window_sum and
 window_sum_squares

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From 540de62e59ff435db6ad5fc1dd71d29ad422307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:57 +0000
Subject: [PATCH 16/59] fix: StereoDistanceFilter stores the focal length and
 baseline it is constructed with

---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From 3f919f80af1f0226c2b5968c834d0a72c16610e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:44 +0000
Subject: [PATCH 17/59] fix: the ratio test compares with the second-best
 keypoint wherever it comes in the search

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..50742da 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -69,6 +69,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -153,6 +155,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From ffa34eb9ca515d720e8a163dca80206f4027ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:44 +0000
Subject: [PATCH 18/59] fix: bidirectional matching normalises each reverse
 window by its own statistics

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 50742da..8f384b7 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -81,7 +81,9 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const MatchingCostFunction reverse_cost_function =
+                    generate_cost_function(reference_image, reverse_reference_image_top_left);
+            const double window_cost = reverse_cost_function(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 98dbe9da254a69905987e35a3904460d9d9d30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:44 +0000
Subject: [PATCH 19/59] fix: keypoints whose window leaves the image are
 reported as not matched

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 8f384b7..3df70d9 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -49,6 +49,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
+        matched = false;
         return cv::KeyPoint{};
     }
 
@@ -133,6 +135,7 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
         return -1;
     }
 
-- 
2.43.0


From 771cfa403db76caf852bbc008c5ddc44525829a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 20/59] fix: add_fields places new fields after the whole
 source point

The offset of a new field and the new point size were derived from the last field in the list, so for points with
trailing padding or fields not listed in offset order the new fields overlapped existing data and the copy wrote past
the end of the buffer.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 68aa608..b26578d 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -21,14 +21,14 @@ pcl::PCLPointCloud2 add_fields(const pcl::PCLPointCloud2& src, const std::vector
     dest.height = src.height;
     dest.width = src.width;
     dest.fields = src.fields;
+    // New fields are placed after all bytes of the source point, which may include padding
+    dest.point_step = src.point_step;
     for (const auto& name : names) {
-        dest.fields.emplace_back(pcl::PCLPointField{.name = name,
-                .offset = dest.fields.empty() ? 0 : point_step(dest.fields.back()),
-                .datatype = datatype,
-                .count = count});
+        dest.fields.emplace_back(
+                pcl::PCLPointField{.name = name, .offset = dest.point_step, .datatype = datatype, .count = count});
+        dest.point_step = point_step(dest.fields.back());
     }
     dest.is_bigendian = src.is_bigendian;
-    dest.point_step = point_step(dest.fields.back());
     dest.row_step = row_step(dest);
     dest.data.resize(size_bytes(dest));
     dest.is_dense = src.is_dense;
-- 
2.43.0


From bc4ff8189a7f712a126a36a12349c6e2e76f067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 21/59] fix: deskew to a time before the start of the sweep

The difference of the unsigned timestamps wrapped around for a new time earlier than the cloud's timestamp.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index b26578d..4671eab 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -129,7 +129,8 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
         const Eigen::Quaterniond skew_quaternion = Eigen::Quaterniond(skew.rotation());
 
         // Compute required quantities
-        const double new_time_seconds = static_cast<double>(new_time - src.header.stamp) / 1.0e6;  // us to s
+        const double new_time_seconds =
+                static_cast<double>(static_cast<std::int64_t>(new_time - src.header.stamp)) / 1.0e6;  // us to s
         const double new_time_fraction = new_time_seconds / dt;
         const Eigen::Vector3d new_time_translation = new_time_fraction * skew_translation;
         const Eigen::Quaterniond new_time_quaternion =
-- 
2.43.0


From 33d3ac2221d3cf99aff8184053e457f892ec1337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 22/59] fix: attach previous stereo observations to the state
 they were made at

When keys without stereo features lie between two feature sets, the observation of the earlier set was attached to
the pose at key - 1 rather than to the pose of the earlier set.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..55bcab5 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From 985989712e7550b205ddb6ba0dc1c9330f42d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 23/59] fix: values in a key range include the landmarks of all
 keys in the range

No landmarks were returned when the first key of the range had no landmark entry of its own.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 55bcab5..7b9e0f1 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From cca4e760cefadc47b9cf68b3d03a31ef71661ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 24/59] fix: reject reacquired stereo features as documented

A feature tracked again under the id of a lost landmark was recorded as a new landmark, which made the next
optimisation fail.
---
 serpent/src/back_end/graph_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 7b9e0f1..e3ad2e7 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -166,6 +166,10 @@ void GraphManager::create_stereo_factors_and_values(
                 // Add feature and previous state factor if feature is tracked for the first time (not in i-2, in i-1)
                 if (features_im2 == stereo_features.rend() ||
                         features_im2->second.find(id) == features_im2->second.end()) {
+                    if (has_stereo_landmark(id)) {
+                        throw std::runtime_error("Stereo feature " + std::to_string(id) + " was lost and reacquired.");
+                    }
+
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
                             features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
-- 
2.43.0


From 2ffe0885f49a1ec63c0c8b03ac66c68860e88ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:14 +0000
Subject: [PATCH 25/59] fix: integrate IMU buffers with measurements at the end
 time or repeated timestamps

A measurement exactly at the end of the interval, or two with the same timestamp, made GTSAM throw because of a zero
time step.
---
 serpent/src/utils/utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..ca3acea 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -45,6 +45,10 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
             // Integrate from the current imu timestamp (integration_time_end) to the next imu timestamp. Account for
             // the cases where the last imu buffer message is before or after end.
             const ros::Time integration_time_end = (next_it == buffer.cend()) ? end : std::min(next_it->timestamp, end);
+            // Nothing to integrate if the measurement is at the end time or superseded at the same time
+            if (integration_time_end == integration_time) {
+                continue;
+            }
             const double dt = (integration_time_end - integration_time).toSec();
             integration_time = integration_time_end;
             preint.integrateMeasurement(it->linear_acceleration, it->angular_velocity, dt);
-- 
2.43.0


From 8efabae5ac7db69fcdc1e1dadbdb4e56401ffd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 26/59] fix: relative rotation metric is independent of
 quaternion sign

---
 serpent/scripts/metrics_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serpent/scripts/metrics_node.py b/serpent/scripts/metrics_node.py
index 3bc1f81..ce7a78b 100755
--- a/serpent/scripts/metrics_node.py
+++ b/serpent/scripts/metrics_node.py
@@ -103,7 +103,8 @@ class MetricsCalculator(object):
                 pose2.orientation.w,
             ]
         )
-        dot = min(1, np.dot(q1, q2))
+        # q and -q are the same orientation
+        dot = min(1, abs(np.dot(q1, q2)))
         angle = 2 * np.arccos(dot)
         return norm, angle
 
-- 
2.43.0


From 96a6c3e296be60e32dd97f160b078a6ca26bb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 27/59] fix: metrics node survives paths of fewer than two
 poses

---
 serpent/scripts/metrics_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/scripts/metrics_node.py b/serpent/scripts/metrics_node.py
index ce7a78b..dd0e122 100755
--- a/serpent/scripts/metrics_node.py
+++ b/serpent/scripts/metrics_node.py
@@ -150,7 +150,7 @@ class MetricsCalculator(object):
         )
 
         # optimized tf diff (use last and second to last poses in optimized pose seq)
-        if self.optimized_path is not None:
+        if self.optimized_path is not None and len(self.optimized_path.poses) >= 2:
             consistent_relative_pose_norm, consistent_relative_pose_angl = self.get_rel_pose(
                 self.optimized_path.poses[-1].pose, self.optimized_path.poses[-2].pose
             )
-- 
2.43.0


From 2e6f0ef521c3279b2f40978110c2a781f9375bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 28/59] fix: label registration variances in the order messages
 carry them

---
 serpent/scripts/metrics_node.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/serpent/scripts/metrics_node.py b/serpent/scripts/metrics_node.py
index dd0e122..eb98320 100755
--- a/serpent/scripts/metrics_node.py
+++ b/serpent/scripts/metrics_node.py
@@ -55,12 +55,13 @@ class MetricsCalculator(object):
         """
         if self.registration is None:
             return -1.0, -1.0, -1.0, -1.0, -1.0, -1.0
-        rx = self.registration.pose.covariance[0]
-        ry = self.registration.pose.covariance[7]
-        rz = self.registration.pose.covariance[14]
-        tx = self.registration.pose.covariance[21]
-        ty = self.registration.pose.covariance[28]
-        tz = self.registration.pose.covariance[35]
+        # covariance order in messages is x, y, z, rotation about x, y, z axes
+        tx = self.registration.pose.covariance[0]
+        ty = self.registration.pose.covariance[7]
+        tz = self.registration.pose.covariance[14]
+        rx = self.registration.pose.covariance[21]
+        ry = self.registration.pose.covariance[28]
+        rz = self.registration.pose.covariance[35]
         return rx, ry, rz, tx, ty, tz
 
     def get_var_outlier(self):
-- 
2.43.0


From dd3db2e7b1a478122c714a468511a38c02fcf2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 29/59] fix: repair timestamps of the pointcloud topic only

---
 snowboard/scripts/repair_ouster_timestamps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snowboard/scripts/repair_ouster_timestamps.py b/snowboard/scripts/repair_ouster_timestamps.py
index de08d0d..26cf92f 100644
--- a/snowboard/scripts/repair_ouster_timestamps.py
+++ b/snowboard/scripts/repair_ouster_timestamps.py
@@ -31,7 +31,7 @@ new_bag = rosbag.Bag(bag_directory + save_filename, mode='w')
 last_timestamp = genpy.Time()
 corrected_count = 0
 for topic, msg, t in bag.read_messages([]):
-    if topic in pointcloud_topic:
+    if topic == pointcloud_topic:
         try:
             # print(msg.header.stamp)
             if msg.header.stamp == genpy.Time():
-- 
2.43.0


From c36dc0d9d14c931803b0e37ea8681652474c4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 30/59] fix: converting a matrix into a used multi-array
 message replaces its dimensions

---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..8e8b750 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -46,6 +46,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From 7b2acbae8575bd2f778d2ca91d8c5bbb59fc1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 31/59] fix: do not broadcast dynamic frames as static
 transforms

---
 eigen_ros/src/body_frames_tf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..12aef58 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,8 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From d867974e8392d48c1cb68e3b7db4b070dd1f8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 32/59] fix: reject rotations with missing components as
 documented

---
 eigen_ros/src/body_frames.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames.cpp b/eigen_ros/src/body_frames.cpp
index 20d847e..6f86286 100644
--- a/eigen_ros/src/body_frames.cpp
+++ b/eigen_ros/src/body_frames.cpp
@@ -229,7 +229,7 @@ Eigen::Isometry3d BodyFrames::transform_from_node(const XmlRpc::XmlRpcValue& nod
         }
         Eigen::Quaterniond rotation = Eigen::Quaterniond::Identity();
         if (node.hasMember("rotation")) {
-            XmlRpc::XmlRpcValue rotation_node = node["rotation"];
+            const XmlRpc::XmlRpcValue rotation_node = node["rotation"];
             rotation.w() = rotation_node["w"];
             rotation.x() = rotation_node["x"];
             rotation.y() = rotation_node["y"];
-- 
2.43.0


From de762af5c17a747c3245287b1776d09a47600f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:08 +0000
Subject: [PATCH 33/59] fix: reject image rotations that are not multiples of
 90 degrees

---
 camera_tools/src/image_operations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..0348a7b 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -18,6 +18,8 @@ Rotate::Rotate(int degrees_clockwise) {
         option = cv::RotateFlags::ROTATE_180;
     } else if (degrees_clockwise == 270) {
         option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
+    } else {
+        throw std::runtime_error("Rotate degrees_clockwise must be a multiple of 90");
     }
 }
 
-- 
2.43.0


From 801f2943007ef404d8592b39858e63049c4c7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 34/59] fix: stereo tracker statistics describe the processed
 frame only

---
 serpent/src/front_end/stereo/stereo_feature_tracker.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..44af105 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -63,6 +63,7 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
 
     // Track statistics
     if (stats) {
+        stats->get() = Statistics{};
         stats->get().frame_number = frame_number_;
     }
 
@@ -119,11 +120,11 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
             new_keypoints[lr] = remove_close_keypoints(new_keypoints[lr], new_track_hypotheses.keypoints[lr]);
             ROS_DEBUG_STREAM("Removed keypoints close to already tracked keypoints in the "
                              << (lr == 0 ? "left" : "right") << " frame");
-            if (stats) {
-                stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
-            }
         }
     }
+    if (stats) {
+        stats->get().filtered_extracted_kp_count = {new_keypoints[0].size(), new_keypoints[1].size()};
+    }
 
     // Filter tracked matches by stereo geometry
     previous_track_data.matches = stereo_filter->filter(
-- 
2.43.0


From c31ce593dfc63fcaf609226b86a17bdc55743684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:17 +0000
Subject: [PATCH 35/59] fix: body filter removes the points within the body
 region

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index c3b593a..4d43678 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -41,6 +41,7 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled) ? "filter/body_filtered_pointcloud"
                                                                                   : final_output_topic;
     if (body_filter_enabled) {
+        body_filter.setNegative(true);  // Remove the points inside the box
         body_filter.setMin(Eigen::Vector4f(nh.param<float>("body_filter/min/x", 0.f),
                 nh.param<float>("body_filter/min/y", 0.f), nh.param<float>("body_filter/min/z", 0.f), 1.f));
         body_filter.setMax(Eigen::Vector4f(nh.param<float>("body_filter/max/x", 0.f),
-- 
2.43.0


From 3e68712e6bd623aaffc70e7d03c611ab079bba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:17 +0000
Subject: [PATCH 36/59] fix: read the statistical outlier removal parameters
 the configuration files set

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 4d43678..b90006b 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -71,8 +71,8 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     // Statistical Outlier Removal filter
     output_topic = random_sample_enabled ? "filter/sor_filtered_pointcloud" : final_output_topic;
     if (sor_enabled) {
-        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal_filter/mean_k", 1));
-        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal_filter/stddev_mul_thresh", 0.0));
+        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal/mean_k", 1));
+        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal/stddev_mul_thresh", 0.0));
         statistical_outlier_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
         statistical_outlier_pointcloud_subscriber = nh.subscribe<pcl::PCLPointCloud2>(
                 input_topic, 100, &PointcloudFilter::statistical_outlier_callback, this);
-- 
2.43.0


From f31a1261e6c65a0c8f897f7ca0bd70897d21b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:50 +0000
Subject: [PATCH 37/59] fix: deskew with the motion of the lidar rather than of
 its mirrored calibration

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 43cbfa4..7ea9887 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -496,7 +496,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
 
         // Transform skew_transform from body frame into lidar frame
-        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame("lidar"));
+        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-- 
2.43.0


From 2c0da69a533582c4c7ebd6f9c31ab74f7bdd2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:50 +0000
Subject: [PATCH 38/59] fix: publish the pose of base_link like its transform

---
 serpent/src/front_end/frontend.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 7ea9887..237637c 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -291,8 +291,8 @@ void Frontend::optimised_odometry_callback(const serpent::ImuBiases::ConstPtr& i
         tf_broadcaster.sendTransform(map_to_base_link_tf);
 
         // Publish T_W^{BL} pose with covariance
-        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(
-                world_odometry.pose_stamped());  // map_to_base_link);
+        auto map_to_base_link_pose =
+                eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(map_to_base_link);
         map_to_base_link_pose.header.frame_id = optimised_odometry_msg->header.frame_id;
         pose_publisher.publish(map_to_base_link_pose);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 3f4a6da24a7e88669e7c9b4884f7d77a8e465b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:50 +0000
Subject: [PATCH 39/59] fix: remove the gyroscope bias from the IMU-rate
 angular velocity

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 237637c..4875b01 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -236,7 +236,7 @@ void Frontend::imu_callback(const sensor_msgs::Imu::ConstPtr& msg) {
         ROS_WARN_ONCE("TODO FIX: angular velocity must be converted from IMU frame to body frame - is this even "
                       "possible? A rotation may be a good approximation.");
         const Eigen::Vector3d angular_velocity =
-                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity + imu_biases.gyroscope());
+                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity - imu_biases.gyroscope());
 
         // Publish current state as odometry output
         auto odometry = boost::make_shared<nav_msgs::Odometry>();
-- 
2.43.0


From f6cdd5d02e62a227e87b4eb0d2f9c80a81cbaae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:50 +0000
Subject: [PATCH 40/59] fix: do not read the barometer buffer before the first
 measurement

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 4875b01..beae307 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -160,7 +160,7 @@ void Frontend::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pr
 }
 
 void Frontend::barometer_try_publish() {
-    if (!barometer_timestamp_buffer.empty()) {
+    if (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
         // Special case (first measurement) where barometer data might not preceded first state timestamp
         if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {
             ROS_WARN_STREAM("No barometer measurement prior to new state timestamp. Approximating with measurement "
-- 
2.43.0


From 3dcda6d185d1937d25d6888d102d6774bbe5cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:25 +0000
Subject: [PATCH 41/59] fix: accept valid registration covariances and reject
 invalid ones

---
 serpent/src/back_end/optimisation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a834845..22512da 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -274,7 +274,7 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
     // Check if valid covariance matrix
-    if (eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From 8ad1aa72313370cabc8d8471ae27919f46629b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:25 +0000
Subject: [PATCH 42/59] fix: publish the velocity of the state optimised with
 stereo factors

---
 serpent/src/back_end/optimisation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 22512da..0bb73a6 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -743,12 +743,16 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
 
             // Optimise and publish
             if (gm->minimum_key(0) == gm->key("stereo") && gm->key("stereo") > 0) {
-                optimise_and_publish(gm->key("stereo"));
+                // Optimise
+                const auto optimisation_result = optimise(gm->key("stereo"));
 
                 // Update velocity if no IMU factors
                 if (!imu_factors_enabled) {
                     update_velocity_from_transforms("stereo");
                 }
+
+                // Publish
+                publish(gm->key("stereo"), optimisation_result);
             }
         }
     } while (features_in_future);
-- 
2.43.0


From 2fea8639f1cf69151fa88dffa8ce7f44d4a667fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:25 +0000
Subject: [PATCH 43/59] fix: initial barometer bias accounts for the height of
 the state

---
 serpent/src/back_end/optimisation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 0bb73a6..7d57b10 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -363,8 +363,10 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
 
     // For first barometer key, create prior (on the current state)
     if (next_barometer_key == 0) {
-        // Set first barometer bias value using first measurement, which will get propagated up to current state.
-        gm->set_barometer_bias(0, height);
+        // Set first barometer bias value using first measurement (the difference between the measured height and the
+        // height of the current state), which will get propagated up to current state.
+        const double bias = height - gm->pose("barometer").z();
+        gm->set_barometer_bias(0, bias);
 
         // Prior barometer bias factor
         const double prior_barometer_noise = nh.param<double>("prior_noise/barometer_bias", 1.0e-6);
@@ -372,8 +374,8 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
             throw std::runtime_error("Prior barometer bias noise should not be zero.");
         }
         gm->create_prior_barometer_bias_factor(
-                gm->key("barometer"), height, gtsam::noiseModel::Isotropic::Sigma(1, prior_barometer_noise));
-        ROS_INFO_STREAM("Created prior factor: P(" << gm->key("barometer") << ") with height = " << height << " m");
+                gm->key("barometer"), bias, gtsam::noiseModel::Isotropic::Sigma(1, prior_barometer_noise));
+        ROS_INFO_STREAM("Created prior factor: P(" << gm->key("barometer") << ") with bias = " << bias << " m");
     }
 
     // Create barometer bias factors up to the current key
-- 
2.43.0


From 4a2d4e9f7030a4728d1f16cfaa3f80b2dfdb44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:25 +0000
Subject: [PATCH 44/59] fix: reject unknown robust noise types

---
 serpent/src/back_end/optimisation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 7d57b10..72a1446 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -230,6 +230,8 @@ Optimisation::Optimisation() : nh("serpent"), body_frames("serpent") {
                 const gtsam::noiseModel::mEstimator::Base::ReweightScheme reweight_scheme = to_reweight_scheme(
                         nh.param<std::string>("stereo_factors/robust/welsch/reweight_scheme", "BLOCK"));
                 robust_noise_model = gtsam::noiseModel::mEstimator::Welsch::Create(c, reweight_scheme);
+            } else {
+                throw std::runtime_error("Robust noise type \'" + robust_noise_type + "\' not recognised.");
             }
             stereo_noise_model = gtsam::noiseModel::Robust::Create(robust_noise_model, stereo_measurement_covariance);
             ROS_INFO_STREAM("Created robust stereo noise model of type \'" << robust_noise_type << "\'");
-- 
2.43.0


From 6338bf7e5fe1a0e3d06ec0542221dbdd65e75555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:25 +0000
Subject: [PATCH 45/59] fix: do not read past the last value when extracting a
 range of values

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index e3ad2e7..83d7015 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -458,7 +458,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key >= first && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
-- 
2.43.0


From bedca4cea9689323d01c675bcf844c5515f17e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 46/59] fix: release the graph when shut down while waiting for
 a state

A callback interrupted by shutdown returned with graph_mutex locked, so every other callback waiting for the mutex blocked forever.
---
 serpent/src/back_end/optimisation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 72a1446..5c659e6 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -347,6 +347,7 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
             }
             return !gm->has_pose("barometer") || gm->timestamp("barometer") < pressure->header.stamp;
         })) {
+        graph_mutex.unlock();
         return;
     };
     if (gm->timestamp("barometer") != pressure->header.stamp) {
@@ -407,6 +408,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
                                                << gm->timestamp("imu") << "). SERPENT may be running slow.");
     if (!protected_sleep(graph_mutex, 0.01, true, true, [this]() { return gm->opt_key() != gm->key("imu"); })) {
+        graph_mutex.unlock();
         return;
     };
 
@@ -728,6 +730,7 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
         ROS_INFO_STREAM_COND(
                 !gm->has_pose("stereo", 1), "Waiting for pose at key " << gm->key("stereo", 1) << " to be set.");
         if (!protected_sleep(graph_mutex, 0.01, true, true, [this]() { return !gm->has_pose("stereo", 1); })) {
+            graph_mutex.unlock();
             return;
         };
 
-- 
2.43.0


From 2854c780333787468b019e3c5494957f9dd0fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 47/59] fix: release the stereo buffer when shut down while
 waiting for images

---
 serpent/src/front_end/frontend.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index beae307..249eaa3 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -358,6 +358,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                     }
                     return stereo_buffer.empty();
                 })) {
+                stereo_data_mutex.unlock();
                 return;
             };
 
-- 
2.43.0


From 894931fedced6009d199b81b92942cd23458d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 48/59] fix: accept an IMU block that arrives before the first
 state is optimised

The warning about waiting looked up the timestamp of key -1, which does not exist.
---
 serpent/src/back_end/optimisation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 5c659e6..deb5487 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -403,7 +403,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
 
     // Wait for imu bias to be optimised (when optimisation has run)
     graph_mutex.lock();
-    ROS_WARN_STREAM_COND(gm->opt_key() != gm->key("imu"),
+    ROS_WARN_STREAM_COND(gm->opt_key() >= 0 && gm->opt_key() != gm->key("imu"),
             "Waiting for optimisation (key = " << gm->opt_key() << ", t = " << gm->timestamp(gm->opt_key())
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
                                                << gm->timestamp("imu") << "). SERPENT may be running slow.");
-- 
2.43.0


From 34ca5128a1d19caba431222132a7ba1f33445e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:20 +0000
Subject: [PATCH 49/59] fix: correct map frames without a pose cloud when past
 frames are extracted

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 7dd2213..5424024 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -295,8 +295,10 @@ void Mapping<PointT>::update_map(const eigen_ros::PoseStamped& frame_pose_stampe
     auto it = map.find(frame_pose_stamped.timestamp);
     if (it != map.end()) {
         it->second.pose = frame_pose_stamped;
-        pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
-                frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        if (pose_cloud) {
+            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
+                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        }
     }
 }
 
-- 
2.43.0


From 47ef92c967ece2bd1f6538a8b3c5639552e89532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:20 +0000
Subject: [PATCH 50/59] fix: filter the global map only when its voxel grid
 filter is enabled

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 5424024..caf4709 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -273,7 +273,7 @@ bool Mapping<PointT>::publish_map_service_callback(std_srvs::Empty::Request&, st
     }
 
     // Filtering/Downsampling
-    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;
+    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;
 
     // Publish
     global_map_publisher.publish(filtered_pointcloud);
-- 
2.43.0


From fac7b79b62f62906c8b1d0895d0b4b1abd9c08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:26 +0000
Subject: [PATCH 51/59] fix: release the scan queue when shut down while
 waiting for a registration

---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index cae8cbf..fd24f76 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -319,6 +319,7 @@ void Registration<PointT>::s2m_callback(const PointCloudConstPtr& map) {
     // Wait for S2S transform and pointcloud
     if (!protected_sleep(s2s_mutex, 0.01, false, true,
                 [this]() { return s2s_registrations.empty() || s2m_pointclouds.empty(); })) {
+        s2s_mutex.unlock();
         return;
     };
 
-- 
2.43.0


From 59abeb8d7a4cdfbec4b6735983247210045d35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:26 +0000
Subject: [PATCH 52/59] fix: do not wait for scans on local maps when scan to
 map registration is disabled

---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index fd24f76..250d003 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -79,7 +79,6 @@ Registration<PointT>::Registration() : nh("serpent"), s2s_sync(10), body_frames(
     transform_subscriber.subscribe(nh, "optimisation/imu_transform", 10);
     s2s_sync.connectInput(pointcloud_subscriber, transform_subscriber);
     s2s_sync.registerCallback(boost::bind(&Registration<PointT>::s2s_callback, this, _1, _2));
-    map_subscriber = nh.subscribe<PointCloud>("mapping/local_map", 10, &Registration<PointT>::s2m_callback, this);
 
     // Configuration
     nh.param<bool>("s2m/enabled", s2m_enabled, true);
@@ -88,6 +87,7 @@ Registration<PointT>::Registration() : nh("serpent"), s2s_sync(10), body_frames(
     s2s = registration_method<PointT, PointT>(nh, "s2s/");
     if (s2m_enabled) {
         s2m = registration_method<PointT, PointT>(nh, "s2m/");
+        map_subscriber = nh.subscribe<PointCloud>("mapping/local_map", 10, &Registration<PointT>::s2m_callback, this);
     }
 
     // Covariance estimation configuration
-- 
2.43.0


From 6f86bcd56404797f7d32ca52737c69e7d0e89eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 53/59] fix: mean of a field of small integers does not
 overflow

---
 .../include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index c12ec40..3d7f395 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -605,7 +605,8 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
 
 template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
-    const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
+    // Sum as double because the sum of small integer types overflows
+    const double mean_ = sum<double>(pointcloud, field) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-- 
2.43.0


From 0c392f8b8bd684cb6efbc146c127ffdfde84cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 54/59] fix: read the SIFT contrast threshold from its
 documented parameter

---
 serpent/src/front_end/stereo/stereo_factor_finder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 005b2dc..0e85cd2 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -108,10 +108,10 @@ template<>
 cv::Ptr<cv::SIFT> create_from_params<cv::SIFT>(const ros::NodeHandle& nh) {
     const int num_features = nh.param<int>("stereo_tracking/detector/sift/num_features", 10);
     const int num_octave_layers = nh.param<int>("stereo_tracking/detector/sift/num_octave_layers", 3);
-    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/constrast_threshold", 0.04);
+    const double contrast_threshold = nh.param<double>("stereo_tracking/detector/sift/contrast_threshold", 0.04);
     const double edge_threshold = nh.param<double>("stereo_tracking/detector/sift/edge_threshold", 10.0);
     const double sigma = nh.param<double>("stereo_tracking/detector/sift/sigma", 1.6);
-    return cv::SIFT::create(num_features, num_octave_layers, constrast_threshold, edge_threshold, sigma);
+    return cv::SIFT::create(num_features, num_octave_layers, contrast_threshold, edge_threshold, sigma);
 }
 #endif
 
-- 
2.43.0


From 81f0a552c362639f96f68e90b18010467f28dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 55/59] fix: read the optical flow configuration from its
 documented pyrlk parameters

---
 .../front_end/stereo/stereo_factor_finder.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 0e85cd2..5bf7531 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -241,16 +241,17 @@ StereoFactorFinder::StereoFactorFinder() : nh("serpent"), it(nh), stereo_sync(10
             nh.param<std::string>("stereo_tracking/sparse_optical_flow/type", "PyrLK");
     if (sparse_optical_flow_type == "PyrLK") {
         const std::vector<int> win_size_vec =
-                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/win_size", {{21, 21}});
+                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/pyrlk/win_size", {{21, 21}});
         const cv::Size win_size = cv::Size{win_size_vec.at(0), win_size_vec.at(1)};
-        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/max_level", 3);
-        const cv::TermCriteria term_criteria = cv::TermCriteria{
-                to_term_criteria_type(
-                        nh.param<std::string>("stereo_tracking/sparse_optical_flow/term_criteria/type", "COUNT+EPS")),
-                nh.param<int>("stereo_tracking/sparse_optical_flow/term_criteria/max_count", 30),
-                nh.param<double>("stereo_tracking/sparse_optical_flow/term_criteria/epsilon", 0.01)};
-        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/flags", 0);
-        const double min_eig_threshold = nh.param<double>("stereo_tracking/sparse_optical_flow/min_eig_threshold", 0);
+        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/max_level", 3);
+        const cv::TermCriteria term_criteria =
+                cv::TermCriteria{to_term_criteria_type(nh.param<std::string>(
+                                         "stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", "COUNT+EPS")),
+                        nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/max_count", 30),
+                        nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/epsilon", 0.01)};
+        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/flags", 0);
+        const double min_eig_threshold =
+                nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/min_eig_threshold", 0);
         sparse_optical_flow =
                 cv::SparsePyrLKOpticalFlow::create(win_size, max_level, term_criteria, flags, min_eig_threshold);
     } else if (sparse_optical_flow_type == "RLOF") {
-- 
2.43.0


From c744112373a5d138c46d9ac0d50b5771d6f8b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 56/59] fix: set the GICP gradient tolerances from their
 parameters

---
 .../serpent/front_end/lidar/registration_methods-inl.hpp   | 7 ++++---
 .../serpent/front_end/lidar/registration_methods.hpp       | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp b/serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp
index 2eeb76e..b904783 100644
--- a/serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp
@@ -34,9 +34,10 @@ void set_gicp_parameters(const ros::NodeHandle& nh, const std::string& prefix,
     gicp.setRotationEpsilon(nh.param<double>(prefix + "gicp/rotation_epsilon", 2.0e-3));
     gicp.setCorrespondenceRandomness(nh.param<int>(prefix + "gicp/correspondence_randomness", 20));
     gicp.setMaximumOptimizerIterations(nh.param<int>(prefix + "gicp/maximum_optimizer_iterations", 20));
-    // From PCL 1.11.0:
-    // gicp.setTranslationGradientTolerance(nh.param<double>(prefix + "gicp/translation_gradient_tolerance", 1.0e-2));
-    // gicp.setRotationGradientTolerance(nh.param<double>(prefix + "gicp/rotation_gradient_tolerance", 1.0e-2));
+#if PCL_VERSION_COMPARE(>=, 1, 11, 0)
+    gicp.setTranslationGradientTolerance(nh.param<double>(prefix + "gicp/translation_gradient_tolerance", 1.0e-2));
+    gicp.setRotationGradientTolerance(nh.param<double>(prefix + "gicp/rotation_gradient_tolerance", 1.0e-2));
+#endif
 }
 
 template<typename PointIn, typename PointOut>
diff --git a/serpent/include/serpent/front_end/lidar/registration_methods.hpp b/serpent/include/serpent/front_end/lidar/registration_methods.hpp
index 2c15e64..7179fc6 100644
--- a/serpent/include/serpent/front_end/lidar/registration_methods.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_methods.hpp
@@ -1,6 +1,7 @@
 #ifndef SERPENT_REGISTRATION_METHODS_HPP
 #define SERPENT_REGISTRATION_METHODS_HPP
 
+#include <pcl/pcl_config.h>
 #include <pcl/registration/gicp.h>
 #include <pcl/registration/ndt.h>
 #include <ros/ros.h>
-- 
2.43.0


From 6c20ebede7b99132eae0abed9d2fe11c79e2d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 57/59] fix: accept registration covariances that are symmetric
 up to rounding

---
 serpent/src/back_end/optimisation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index deb5487..bc21a2c 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -275,8 +275,9 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
     const gtsam::Pose3 registration_pose_gtsam =
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
-    // Check if valid covariance matrix
-    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    // Check if valid covariance matrix (computed and rotated covariances are only symmetric up to rounding)
+    const double symmetry_precision = 1.0e-6 * registration_pose.data.covariance.cwiseAbs().maxCoeff();
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance, symmetry_precision)) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From f37d61a3e15cc9bbde0ebf842063718413ede6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:01 +0000
Subject: [PATCH 58/59] fix: publish IMU measurements after the last use of the
 previous optimised state

---
 serpent/src/front_end/frontend.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 249eaa3..a2c16e9 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -377,14 +377,15 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
-        // Initialised: publish the IMU messages between the deskew times of the pointclouds.
+        // Initialised: collect the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
+        serpent::ImuArray::Ptr imu_s2s;
         if (initialised) {
-            // Accumulate and publish the IMU measurements required for registration of the previous two pointclouds.
+            // Accumulate the IMU measurements required for registration of the previous two pointclouds.
             // This spans from the previous to the current state time. Remove any IMU measurements older
             // than the first of these.
             std::lock_guard<std::mutex> guard{imu_data_mutex};
-            auto imu_s2s = boost::make_shared<serpent::ImuArray>();
+            imu_s2s = boost::make_shared<serpent::ImuArray>();
             imu_s2s->start_timestamp = previous_state_time;
             imu_s2s->end_timestamp = new_state_time;
             if (imu_buffer.front().timestamp > previous_state_time) {
@@ -399,9 +400,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 }
             }
             delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);
-            imu_s2s_publisher.publish(imu_s2s);
-            ROS_DEBUG_STREAM(
-                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
         } else {
             // Wait for IMU message after deskew timestamp (for safety, as should already be received).
             if (!protected_sleep(preintegration_mutex, 0.01, false, false,
@@ -452,7 +450,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
 
         // Wait for previous imu_biases (& world_state) and IMU message past end of sweep and start of new point cloud.
         // Then imu_biases, world_state, world_odometry and preintegration_params can be used without mutex locking
-        // because the optimised odometry callback cannot trigger until after the deskewed pointcloud is published.
+        // because the optimised odometry callback cannot trigger until after the IMU measurements are published.
         if (!protected_sleep(preintegration_mutex, 0.01, false, false, [this, previous_pointcloud_end]() {
                 return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end;
             })) {
@@ -515,6 +513,14 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Publish deskewed pointcloud
         deskewed_pointcloud_publisher.publish(deskewed_pointcloud);
 
+        // Publish IMU measurements. Without registration these alone trigger the optimisation, so this must come after the
+        // last use of the previous optimised state.
+        if (imu_s2s) {
+            imu_s2s_publisher.publish(imu_s2s);
+            ROS_DEBUG_STREAM(
+                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
+        }
+
         // Save timestamp for barometer interpolation
         if (barometer_enabled) {
             std::lock_guard<std::mutex> guard{barometer_data_mutex};
-- 
2.43.0


From 6895c20a2f05ef76533a368f481193af0449c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:26 +0000
Subject: [PATCH 59/59] fix: wait for the IMU measurements up to a state before
 collecting them

---
 serpent/src/front_end/frontend.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index a2c16e9..bacc395 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -377,6 +377,12 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
+        // Wait for IMU message at or after the new state time (for safety, as should already be received).
+        if (!protected_sleep(preintegration_mutex, 0.01, false, false,
+                    [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
+            return;
+        };
+
         // Initialised: collect the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
         serpent::ImuArray::Ptr imu_s2s;
@@ -401,12 +407,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             }
             delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);
         } else {
-            // Wait for IMU message after deskew timestamp (for safety, as should already be received).
-            if (!protected_sleep(preintegration_mutex, 0.01, false, false,
-                        [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
-                return;
-            };
-
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
 
-- 
2.43.0

