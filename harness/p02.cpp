// P02: twists and covariances move between frames by the exact adjoint.
#include <eigen_ext/geometry.hpp>

#include "gen.hpp"
using namespace gen;

// Closed-form exponential of a twist [w, v], in long double.
static Eigen::Matrix4d se3_exp(const Vector6d& xi) {
    typedef Eigen::Matrix<long double, 3, 3> M;
    typedef Eigen::Matrix<long double, 3, 1> V;
    const V w = xi.head<3>().cast<long double>(), v = xi.tail<3>().cast<long double>();
    const long double a = w.norm();
    M W;
    W << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
    M R, J;
    if (a < 1e-6L) {
        R = M::Identity() + W + W * W / 2.0L;
        J = M::Identity() + W / 2.0L + W * W / 6.0L;
    } else {
        R = M::Identity() + sinl(a) / a * W + (1 - cosl(a)) / (a * a) * W * W;
        J = M::Identity() + (1 - cosl(a)) / (a * a) * W + (a - sinl(a)) / (a * a * a) * W * W;
    }
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    T.block<3, 3>(0, 0) = R.cast<double>();
    T.block<3, 1>(0, 3) = (J * v).cast<double>();
    return T;
}
static Vector6d twist(pbt::Src& s, double mag) {
    Vector6d xi;
    for (int i = 0; i < 6; ++i) xi[i] = s.real(-mag, mag);
    return xi;
}
static Matrix6d random_cov(pbt::Src& s) {
    Matrix6d C = spd<6>(s, s.boolean() ? 0.0 : 0.1);
    if (s.draw(5) == 0) { C.setZero(); for (int i = 0; i < 6; ++i) C(i, i) = s.real(0, 3); s.label("diagonal covariance"); }
    return C;
}

PROPERTY(adjoint, 120000, 3000000, "rotation and translation both non-zero") {
    const Eigen::Isometry3d T = isometry(s), U = isometry(s);
    s.nontrivial(!T.linear().isIdentity() && T.translation().norm() > 0);
    s.note() << "T=" << str(T.matrix());
    const Matrix6d A = eigen_ext::transform_adjoint(T), B = eigen_ext::transform_adjoint(U);
    const double sc = scale_of(T.matrix()) * scale_of(U.matrix());
    CHECK(max_diff(A, adjoint(T.matrix())) < 1e-13 * sc, "adjoint differs from [R 0; [t]R R]: ", str(A));
    CHECK(max_diff(A * B, eigen_ext::transform_adjoint(Eigen::Isometry3d(T * U))) < 1e-11 * sc * sc, "Ad(T)Ad(U) != Ad(TU)");
    const Eigen::Isometry3d Ti(inverse4(T.matrix()));
    CHECK(max_diff(A * eigen_ext::transform_adjoint(Ti), Matrix6d::Identity()) < 1e-11 * sc * sc, "Ad(T)Ad(T^-1) != I");
    // conjugation: T exp(xi) T^-1 = exp(Ad_T xi)
    const Vector6d xi = twist(s, 1.0);
    const Eigen::Matrix4d lhs = T.matrix() * se3_exp(xi) * inverse4(T.matrix());
    CHECK(max_diff(lhs, se3_exp(A * xi)) < 1e-10 * sc, "T exp(xi) T^-1 != exp(Ad_T xi)");
    // float instance
    const Eigen::Transform<float, 3, Eigen::Isometry> Tf(T.matrix().cast<float>());
    CHECK(max_diff(eigen_ext::transform_adjoint(Tf), adjoint(T.matrix())) < 3e-6 * sc, "float adjoint");
}

PROPERTY(twist_frame, 120000, 3000000, "twist with angular part and a translated frame") {
    const Eigen::Isometry3d T = isometry(s), U = isometry(s);
    const Vector6d xi = twist(s, 5.0);
    s.nontrivial(xi.head<3>().norm() > 0 && T.translation().norm() > 0);
    s.note() << "T=" << str(T.matrix()) << " twist=" << str(xi);
    const Vector6d v = eigen_ext::change_twist_reference_frame(T, xi);
    Vector6d ref;
    ref.head<3>() = T.linear() * xi.head<3>();
    ref.tail<3>() = T.linear() * xi.tail<3>() + T.translation().cross(Eigen::Vector3d(T.linear() * xi.head<3>()));
    const double sc = scale_of(T.matrix()) * scale_of(U.matrix()) * scale_of(xi);
    CHECK(max_diff(v, ref) < 1e-12 * sc, "twist in the new frame: ", str(v), " expected ", str(ref));
    const Eigen::Isometry3d Ti(inverse4(T.matrix()));
    CHECK(max_diff(eigen_ext::change_twist_reference_frame(Ti, v), xi) < 1e-10 * sc * sc, "not undone by the inverse");
    const Vector6d a = eigen_ext::change_twist_reference_frame(Eigen::Isometry3d(T * U), xi);
    const Vector6d b = eigen_ext::change_twist_reference_frame(T, Vector6d(eigen_ext::change_twist_reference_frame(U, xi)));
    CHECK(max_diff(a, b) < 1e-10 * sc * sc, "does not compose");
}

PROPERTY(covariance_frame, 80000, 2000000, "covariance with off-diagonal blocks, non-trivial transform") {
    const Eigen::Isometry3d T = isometry(s);
    const Matrix6d C = random_cov(s);
    s.nontrivial(!T.linear().isIdentity() && T.translation().norm() > 0 && C.block<3, 3>(0, 3).norm() > 0);
    s.note() << "T=" << str(T.matrix()) << " C=" << str(C);
    const Matrix6d A = adjoint(T.matrix());
    const Matrix6d ref = A * C * A.transpose();
    const double sc = scale_of(ref);
    const Matrix6d D1 = eigen_ext::change_covariance_frame(C, T);
    const Matrix6d D2 = eigen_ext::change_covariance_frame(C, A);
    CHECK(max_diff(D1, ref) < 1e-12 * sc, "covariance via transform is not A C A^T");
    CHECK(max_diff(D2, ref) < 1e-12 * sc, "covariance via adjoint is not A C A^T");
    CHECK(max_diff(D1, D1.transpose()) < 1e-12 * sc, "not symmetric");
    Eigen::SelfAdjointEigenSolver<Matrix6d> es(0.5 * (D1 + D1.transpose()));
    CHECK(es.eigenvalues().minCoeff() > -1e-10 * sc, "not positive semi-definite");
    const Eigen::Isometry3d Ti(inverse4(T.matrix()));
    const double t2 = scale_of(T.matrix());
    CHECK(max_diff(eigen_ext::change_covariance_frame(D1, Ti), C) < 1e-11 * sc * t2 * t2, "not undone by the inverse");
    // propagation of a sample: variance of any linear functional of the moved twist
    Vector6d f = twist(s, 1.0);
    const Vector6d fm = A.transpose() * f;
    CHECK(pbt::near(f.dot(D1 * f), fm.dot(C * fm), 1e-10 * sc), "variance of a functional");
}

PROPERTY(compose_covariance, 80000, 2000000, "both covariances non-diagonal, relative transform with rotation and translation") {
    const Eigen::Isometry3d T = isometry(s);
    const Matrix6d P = random_cov(s), R = random_cov(s);
    const Matrix6d X = s.boolean() ? Matrix6d(matrix<6, 6>(s, 0.2)) : Matrix6d(Matrix6d::Zero());
    s.nontrivial(!T.linear().isIdentity() && T.translation().norm() > 0 && P.block<3, 3>(0, 3).norm() > 0);
    s.label(X.isZero() ? "no cross covariance" : "cross covariance");
    s.note() << "T=" << str(T.matrix()) << " P=" << str(P) << " R=" << str(R);
    const Matrix6d A = adjoint(inverse4(T.matrix()));
    // first-order propagation of the joint distribution of [previous; relative] through d_new = A d_prev + d_rel
    Eigen::Matrix<double, 12, 12> J;
    J << P, X.transpose(), X, R;
    Eigen::Matrix<double, 6, 12> F;
    F << A, Matrix6d::Identity();
    const Matrix6d ref = F * J * F.transpose();
    const double sc = scale_of(ref) * scale_of(T.matrix());
    const Matrix6d got = eigen_ext::compose_transform_covariance<double, 3>(P, R, T, X);
    CHECK(max_diff(got, ref) < 1e-11 * sc, "composed covariance: ", str(got), " expected ", str(ref));
    if (X.isZero()) {
        const Matrix6d def = eigen_ext::compose_transform_covariance<double, 3>(P, R, T);
        CHECK(max_diff(def, ref) < 1e-11 * sc, "default cross covariance is not zero");
    }
    // identity previous uncertainty: the composed covariance is the relative one
    const Matrix6d only = eigen_ext::compose_transform_covariance<double, 3>(Matrix6d(Matrix6d::Zero()), R, T);
    CHECK(max_diff(only, R) < 1e-12 * scale_of(R), "zero previous covariance");
}

template<typename S>
static void point_cov(pbt::Src& s, double eps) {
    typedef Eigen::Matrix<S, 3, 3> M;
    const Eigen::Matrix3d R = rotation(s);
    const Eigen::Matrix3d Cd = spd<3>(s, 0.0);
    s.nontrivial(!R.isIdentity() && std::abs(Cd(0, 1)) > 0);
    s.note() << "R=" << str(R) << " C=" << str(Cd);
    const Eigen::Matrix3d ref = R * Cd * R.transpose();
    const double tol = eps * scale_of(Cd);
    CHECK(max_diff(eigen_ext::rotate_point_covariance(M(Cd.cast<S>()), M(R.cast<S>())), ref) < tol, "matrix overload is not R C R^T");
    const Eigen::Quaternion<S> q(M(R.cast<S>()));
    CHECK(max_diff(eigen_ext::rotate_point_covariance(M(Cd.cast<S>()), q), ref) < 20 * tol, "quaternion overload");
    const Eigen::AngleAxis<S> aa(q);
    CHECK(max_diff(eigen_ext::rotate_point_covariance(M(Cd.cast<S>()), aa), ref) < 1e3 * tol, "angle-axis overload");
    const M once = eigen_ext::rotate_point_covariance(M(Cd.cast<S>()), M(R.cast<S>()));
    const M back = eigen_ext::rotate_point_covariance(once, M(R.transpose().cast<S>()));
    CHECK(max_diff(back, Cd) < 10 * tol, "not undone by the inverse rotation");
}
PROPERTY(point_covariance, 100000, 2000000, "rotated, correlated covariance") {
    if (s.draw(3) == 0) point_cov<float>(s, 3e-6); else point_cov<double>(s, 1e-13);
}
