// Generators and reference geometry shared by the harnesses. The reference rotation is built here from first principles
// (Rodrigues' formula in long double), not with the library under test.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>

#include "pbt.hpp"

namespace gen {
typedef Eigen::Matrix<double, 6, 6> Matrix6d;
typedef Eigen::Matrix<double, 6, 1> Vector6d;

inline Eigen::Matrix3d rodrigues(const Eigen::Vector3d& rv) {
    typedef long double L;
    const L x = rv[0], y = rv[1], z = rv[2];
    const L a = sqrtl(x * x + y * y + z * z);
    Eigen::Matrix3d R;
    if (a == 0) return Eigen::Matrix3d::Identity();
    const L ux = x / a, uy = y / a, uz = z / a, c = cosl(a), s = sinl(a), v = 1 - c;
    R(0, 0) = c + ux * ux * v; R(0, 1) = ux * uy * v - uz * s; R(0, 2) = ux * uz * v + uy * s;
    R(1, 0) = uy * ux * v + uz * s; R(1, 1) = c + uy * uy * v; R(1, 2) = uy * uz * v - ux * s;
    R(2, 0) = uz * ux * v - uy * s; R(2, 1) = uz * uy * v + ux * s; R(2, 2) = c + uz * uz * v;
    return R;
}

// Rotation vector of magnitude at most pi; labels the class it falls in.
inline Eigen::Vector3d rotvec(pbt::Src& s, bool label = true) {
    Eigen::Vector3d axis;
    if (s.draw(4) == 0) {
        axis = Eigen::Vector3d::Zero();
        axis[s.draw(2)] = s.boolean() ? -1.0 : 1.0;
    } else {
        do { axis = Eigen::Vector3d(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)); if (axis.norm() < 1e-3) axis = Eigen::Vector3d::UnitX(); } while (false);
        axis.normalize();
    }
    double a;
    switch (s.draw(9)) {
        case 0: a = 0.0; if (label) s.label("rotation zero"); break;
        case 1: a = M_PI / 2.0 * static_cast<double>(s.draw(2)); if (label) s.label("rotation quarter turns"); break;
        case 2: a = std::pow(10.0, -s.uniform(2.0, 12.0)); if (label) s.label("rotation tiny"); break;
        case 3: a = M_PI - std::pow(10.0, -s.uniform(1.0, 8.0)); if (label) s.label("rotation near pi"); break;
        default: a = s.uniform(0.0, M_PI); if (label) s.label("rotation general"); break;
    }
    return axis * a;
}
inline Eigen::Matrix3d rotation(pbt::Src& s, bool label = true) { return rodrigues(rotvec(s, label)); }
inline Eigen::Vector3d vec3(pbt::Src& s, double mag = 10.0) {
    if (s.draw(11) == 0) return Eigen::Vector3d::Zero();
    return Eigen::Vector3d(s.real(-mag, mag), s.real(-mag, mag), s.real(-mag, mag));
}
inline Eigen::Isometry3d make_iso(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    T.matrix().block<3, 3>(0, 0) = R;
    T.matrix().block<3, 1>(0, 3) = t;
    return T;
}
inline Eigen::Isometry3d isometry(pbt::Src& s, double mag = 10.0) {
    const Eigen::Matrix3d R = rotation(s);
    return make_iso(R, vec3(s, mag));
}
inline Eigen::Matrix4d inverse4(const Eigen::Matrix4d& T) {
    Eigen::Matrix4d o = Eigen::Matrix4d::Identity();
    o.block<3, 3>(0, 0) = T.block<3, 3>(0, 0).transpose();
    o.block<3, 1>(0, 3) = -T.block<3, 3>(0, 0).transpose() * T.block<3, 1>(0, 3);
    return o;
}
inline Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
    Eigen::Matrix3d m;
    m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
    return m;
}
// [rotation, translation] ordering
inline Matrix6d adjoint(const Eigen::Matrix4d& T) {
    Matrix6d a = Matrix6d::Zero();
    const Eigen::Matrix3d R = T.block<3, 3>(0, 0);
    a.block<3, 3>(0, 0) = R;
    a.block<3, 3>(3, 3) = R;
    a.block<3, 3>(3, 0) = skew(T.block<3, 1>(0, 3)) * R;
    return a;
}
template<int N>
Eigen::Matrix<double, N, N> spd(pbt::Src& s, double min_eig = 0.01) {
    Eigen::Matrix<double, N, N> A;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A(i, j) = s.real(-2, 2);
    Eigen::Matrix<double, N, N> C = A * A.transpose();
    C = (0.5 * (C + C.transpose())).eval();
    C.diagonal().array() += min_eig;
    return C;
}
template<int R, int C>
Eigen::Matrix<double, R, C> matrix(pbt::Src& s, double mag = 10.0) {
    Eigen::Matrix<double, R, C> A;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) A(i, j) = s.real(-mag, mag);
    return A;
}
template<typename A, typename B>
double max_diff(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b) {
    double m = 0.0;
    if (a.rows() != b.rows() || a.cols() != b.cols()) return std::numeric_limits<double>::infinity();
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) {
            const double d = std::abs(static_cast<double>(a(i, j)) - static_cast<double>(b(i, j)));
            if (!(d <= m)) m = std::isnan(d) ? std::numeric_limits<double>::infinity() : d;
        }
    return m;
}
template<typename A>
double scale_of(const Eigen::MatrixBase<A>& a) { return 1.0 + (a.size() ? static_cast<double>(a.cwiseAbs().maxCoeff()) : 0.0); }

// Angle of the relative rotation of two rotation matrices.
inline double angle_between(const Eigen::Matrix3d& A, const Eigen::Matrix3d& B) {
    const Eigen::Matrix3d D = A.transpose() * B;
    const Eigen::Vector3d v(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
    return std::atan2(0.5 * v.norm(), 0.5 * (D.trace() - 1.0));
}
template<typename A>
std::string str(const Eigen::MatrixBase<A>& m) {
    std::ostringstream os;
    os.precision(17);
    os << "[";
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) os << (i || j ? (j ? "," : ";") : "") << m(i, j);
    os << "]";
    return os.str();
}
}
