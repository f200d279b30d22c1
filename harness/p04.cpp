// P04: Eigen <-> GTSAM conversions.
#include <eigen_gtsam/eigen_gtsam.hpp>

#include "gen.hpp"
using namespace gen;

PROPERTY(pose, 150000, 3000000, "rotation and translation both non-zero") {
    const Eigen::Isometry3d T = isometry(s, 100), U = isometry(s, 100);
    s.nontrivial(!T.linear().isIdentity() && T.translation().norm() > 0);
    s.note() << "T=" << str(T.matrix());
    const gtsam::Pose3 g = eigen_gtsam::to_gtsam<gtsam::Pose3>(T);
    const double tol = 1e-13 * scale_of(T.matrix()) * scale_of(U.matrix());
    CHECK(max_diff(g.matrix(), T.matrix()) < tol, "matrices differ: ", str(g.matrix()));
    gtsam::Pose3 g2;
    eigen_gtsam::to_gtsam(T, g2);
    CHECK(g2.equals(g, 1e-12), "out-parameter form differs");
    const Eigen::Isometry3d back = eigen_gtsam::to_eigen<Eigen::Isometry3d>(g);
    CHECK(max_diff(back.matrix(), T.matrix()) < tol, "round trip changed the pose: ", str(back.matrix()));
    const Eigen::Vector3d p = vec3(s, 20);
    CHECK(max_diff(Eigen::Vector3d(g.transformFrom(gtsam::Point3(p))), Eigen::Vector3d(T.linear() * p + T.translation())) < 10 * tol * scale_of(p), "acts differently on a point");
    CHECK(max_diff(Eigen::Vector3d(back * p), Eigen::Vector3d(T.linear() * p + T.translation())) < 10 * tol * scale_of(p), "Eigen pose acts differently on a point");
    const gtsam::Pose3 gu = eigen_gtsam::to_gtsam<gtsam::Pose3>(U);
    CHECK(max_diff(eigen_gtsam::to_eigen<Eigen::Isometry3d>(g * gu).matrix(), T.matrix() * U.matrix()) < 100 * tol, "composition differs");
    CHECK(max_diff(eigen_gtsam::to_eigen<Eigen::Isometry3d>(g.inverse()).matrix(), inverse4(T.matrix())) < 10 * tol, "inverse differs");
    // both sides order six-vectors as rotation then translation
    CHECK(max_diff(g.AdjointMap(), adjoint(T.matrix())) < 10 * tol, "six-vector order differs");
    // starting from the GTSAM side
    const gtsam::Pose3 h(gtsam::Rot3(rotation(s, false)), gtsam::Point3(vec3(s, 50)));
    const gtsam::Pose3 hb = eigen_gtsam::to_gtsam<gtsam::Pose3>(eigen_gtsam::to_eigen<Eigen::Isometry3d>(h));
    CHECK(max_diff(hb.matrix(), h.matrix()) < 1e-11, "GTSAM round trip changed the pose");
    Eigen::Isometry3d o;
    eigen_gtsam::to_eigen(h, o);
    CHECK(max_diff(o.translation(), h.translation()) < 1e-11 && max_diff(o.linear(), h.rotation().matrix()) < 1e-13, "parts of the pose differ");
    CHECK(max_diff(o.matrix().row(3), Eigen::RowVector4d(0, 0, 0, 1)) == 0.0, "last row");
}

PROPERTY(rotation_matrix, 150000, 3000000, "rotation not identity") {
    const Eigen::Matrix3d R = rotation(s);
    s.nontrivial(!R.isIdentity());
    s.note() << "R=" << str(R);
    const gtsam::Rot3 g = eigen_gtsam::to_gtsam<gtsam::Rot3>(R);
    CHECK(max_diff(g.matrix(), R) < 1e-13, "matrices differ");
    CHECK(max_diff(eigen_gtsam::to_eigen<Eigen::Matrix3d>(g), R) < 1e-13, "round trip changed the rotation");
    Eigen::Matrix3d o = Eigen::Matrix3d::Zero();
    eigen_gtsam::to_eigen(g, o);
    CHECK(max_diff(o, R) < 1e-13, "out-parameter form differs");
    gtsam::Rot3 g2;
    const Eigen::Isometry3d T = make_iso(R, vec3(s));
    eigen_gtsam::to_gtsam(T.linear(), g2);
    CHECK(max_diff(g2.matrix(), R) < 1e-13, "conversion of a matrix expression differs");
    const Eigen::Vector3d p = vec3(s, 20);
    CHECK(max_diff(Eigen::Vector3d(g.rotate(gtsam::Point3(p))), Eigen::Vector3d(R * p)) < 1e-11, "acts differently on a vector");
}
