// P01: rigid-transform algebra.
#include <eigen_ext/geometry.hpp>
#include <eigen_ext/precomputed_transform_components.hpp>

#include "gen.hpp"
using namespace gen;

PROPERTY(relative_transform, 120000, 4000000, "poses with rotation and translation both non-zero") {
    const Eigen::Isometry3d A = isometry(s), B = isometry(s);
    s.nontrivial(!A.matrix().isApprox(B.matrix()) && A.translation().norm() > 0);
    s.note() << "A=" << str(A.matrix()) << " B=" << str(B.matrix());
    const Eigen::Isometry3d D = eigen_ext::relative_transform(A, B);
    const double tol = 1e-12 * (scale_of(A.matrix()) + scale_of(B.matrix()));
    const Eigen::Matrix4d ref = inverse4(A.matrix()) * B.matrix();
    CHECK(max_diff(D.matrix(), ref) < tol, "relative transform is not A^-1 B: ", str(D.matrix()), " expected ", str(ref));
    CHECK(max_diff((A * D).matrix(), B.matrix()) < tol, "A * rel(A, B) != B");
    CHECK(max_diff(eigen_ext::relative_transform(B, A).matrix(), inverse4(ref)) < tol, "rel(B, A) != rel(A, B)^-1");
    // 2D instance of the same template
    const double a2 = s.uniform(-3.2, 3.2), b2 = s.uniform(-3.2, 3.2);
    Eigen::Isometry2d P = Eigen::Isometry2d::Identity(), Q = P;
    P.linear() << std::cos(a2), -std::sin(a2), std::sin(a2), std::cos(a2);
    Q.linear() << std::cos(b2), -std::sin(b2), std::sin(b2), std::cos(b2);
    P.translation() << s.real(-5, 5), s.real(-5, 5);
    Q.translation() << s.real(-5, 5), s.real(-5, 5);
    const Eigen::Isometry2d PQ = eigen_ext::relative_transform(P, Q);
    CHECK(max_diff((P * PQ).matrix(), Q.matrix()) < 1e-11, "2D relative transform does not recompose");
}

PROPERTY(change_relative_transform_frame, 120000, 4000000, "rigid transform with rotation and translation, relative motion not identity") {
    const Eigen::Isometry3d rel = isometry(s), BA = isometry(s);
    s.nontrivial(!rel.matrix().isIdentity() && !BA.matrix().isIdentity() && BA.translation().norm() > 0);
    s.note() << "rel_A=" << str(rel.matrix()) << " T_B^A=" << str(BA.matrix());
    const Eigen::Matrix4d ref = BA.matrix() * rel.matrix() * inverse4(BA.matrix());
    const double tol = 1e-12 * scale_of(rel.matrix()) * scale_of(BA.matrix());
    const Eigen::Isometry3d two = eigen_ext::change_relative_transform_frame(rel, BA);
    CHECK(max_diff(two.matrix(), ref) < tol, "T_B1^B2 != T_B^A T_A1^A2 T_A^B: ", str(two.matrix()), " expected ", str(ref));
    const Eigen::Isometry3d AB = Eigen::Isometry3d(inverse4(BA.matrix()));
    const Eigen::Isometry3d three = eigen_ext::change_relative_transform_frame(rel, BA, AB);
    CHECK(max_diff(three.matrix(), ref) < tol, "three-argument overload differs from its definition");
    const Eigen::Isometry3d back = eigen_ext::change_relative_transform_frame(two, AB);
    CHECK(max_diff(back.matrix(), rel.matrix()) < 10 * tol * scale_of(BA.matrix()), "changing frame and back is not the identity");
    // composition: moving the composition equals composing the moved
    const Eigen::Isometry3d rel2 = isometry(s);
    const Eigen::Isometry3d m12 = eigen_ext::change_relative_transform_frame(Eigen::Isometry3d(rel * rel2), BA);
    const Eigen::Isometry3d m2 = eigen_ext::change_relative_transform_frame(rel2, BA);
    CHECK(max_diff(m12.matrix(), (two * m2).matrix()) < 100 * tol * scale_of(rel2.matrix()), "frame change is not a homomorphism");
    // world consistency: two poses of A, B rigidly attached to A
    const Eigen::Isometry3d WA1 = isometry(s);
    const Eigen::Matrix4d WA2 = WA1.matrix() * rel.matrix();
    const Eigen::Matrix4d WB1 = WA1.matrix() * AB.matrix(), WB2 = WA2 * AB.matrix();
    CHECK(max_diff(inverse4(WB1) * WB2, two.matrix()) < 100 * tol * scale_of(WA1.matrix()), "relative motion of B disagrees with its world poses");
}

template<typename S>
static void to_transform_case(pbt::Src& s, double eps) {
    typedef Eigen::Matrix<S, 3, 1> V;
    typedef Eigen::Matrix<S, 3, 3> M;
    const Eigen::Vector3d rv = rotvec(s);
    const Eigen::Matrix3d R = rodrigues(rv);
    const Eigen::Vector3d td = vec3(s, 50);
    const V t = td.cast<S>();
    // quaternion from its definition
    const double a = rv.norm();
    const Eigen::Vector3d ax = a > 0 ? Eigen::Vector3d(rv / a) : Eigen::Vector3d::UnitX();
    Eigen::Quaternion<S> q(static_cast<S>(std::cos(a / 2)), static_cast<S>(ax[0] * std::sin(a / 2)),
            static_cast<S>(ax[1] * std::sin(a / 2)), static_cast<S>(ax[2] * std::sin(a / 2)));
    if (s.boolean()) q.coeffs() = -q.coeffs();
    s.nontrivial(a > 0 && td.norm() > 0);
    s.note() << "rotvec=" << str(rv) << " t=" << str(td);
    Eigen::Matrix4d ref = Eigen::Matrix4d::Identity();
    ref.block<3, 3>(0, 0) = R;
    ref.block<3, 1>(0, 3) = td;
    const double tol = eps * scale_of(td);
    CHECK(max_diff(eigen_ext::to_transform(Eigen::Translation<S, 3>(t), q).matrix(), ref) < tol, "to_transform(Translation, q)");
    CHECK(max_diff(eigen_ext::to_transform(t, q).matrix(), ref) < tol, "to_transform(vector, q)");
    CHECK(max_diff(eigen_ext::to_transform(t, M(R.cast<S>())).matrix(), ref) < 10 * tol, "to_transform(vector, R)");
}
PROPERTY(to_transform, 120000, 4000000, "non-zero rotation and translation") {
    if (s.draw(3) == 0) to_transform_case<float>(s, 2e-6); else to_transform_case<double>(s, 1e-14);
}

PROPERTY(linear_rates, 120000, 4000000, "moving and rotating between the poses, dt != 1") {
    const Eigen::Isometry3d A = isometry(s);
    const Eigen::Vector3d rv = rotvec(s);
    const Eigen::Vector3d d = vec3(s, 5);
    const double dt = std::pow(10.0, s.uniform(-4, 3));
    const Eigen::Isometry3d B(Eigen::Matrix4d(A.matrix() * make_iso(rodrigues(rv), d).matrix()));
    s.nontrivial(rv.norm() > 0 && d.norm() > 0);
    s.note() << "rotvec=" << str(rv) << " d=" << str(d) << " dt=" << dt;
    const Vector6d r = eigen_ext::linear_rates(A, B, dt);
    const double sc = scale_of(A.matrix()) + d.norm();
    CHECK(max_diff(r.tail<3>() * dt, d) < 1e-12 * sc, "linear rate is not the displacement in the first pose over dt: ", str(r));
    // angular: exp(w dt) must be the relative rotation, with |w dt| <= pi
    const Eigen::Vector3d w = r.head<3>() * dt;
    CHECK(w.norm() < M_PI + 1e-9, "rotation rate exceeds half a turn");
    CHECK(max_diff(rodrigues(w), rodrigues(rv)) < 2e-7, "angular rate does not reproduce the rotation: ", str(w), " vs ", str(rv));
    if (rv.norm() > 1e-3 && rv.norm() < M_PI - 1e-3) CHECK(max_diff(w, rv) < 1e-10, "angular rate is not the rotation vector over dt");
    // halving dt doubles the rates
    const Vector6d r2 = eigen_ext::linear_rates(A, B, dt / 2);
    CHECK(max_diff(r2, 2 * r) < 1e-9 * scale_of(r), "rates do not scale with 1/dt");
    const double bad = s.boolean() ? 0.0 : -dt;
    CHECK_THROWS(eigen_ext::linear_rates(A, B, bad), "dt=", bad);
}

template<typename S>
static void precomputed_case(pbt::Src& s, double eps) {
    typedef Eigen::Matrix<S, 3, 1> V;
    typedef Eigen::Matrix<S, 4, 4> M4;
    const Eigen::Vector3d rv = rotvec(s);
    const Eigen::Vector3d t = vec3(s, 20);
    const double a = rv.norm();
    s.nontrivial(a > 0 && t.norm() > 0);
    s.note() << "r=" << str(rv) << " t=" << str(t);
    const Eigen::Matrix3d R = rodrigues(rv);
    const double tol = eps * scale_of(t);
    auto common = [&](const eigen_ext::PrecomputedTransformComponents<S>& c, const char* how, double ang_tol) {
        CHECK(max_diff(c.R(), R) < ang_tol, how, ": R differs from the rotation matrix: ", str(c.R()));
        CHECK(max_diff(c.t(), t) < tol, how, ": t differs");
        CHECK((max_diff(c.T().template block<3, 3>(0, 0), R) < ang_tol), how, ": T rotation block");
        CHECK((max_diff(c.T().template block<3, 1>(0, 3), t) < tol), how, ": T translation block");
        CHECK((max_diff(c.T().template block<1, 4>(3, 0), Eigen::RowVector4d(0, 0, 0, 1)) == 0.0), how, ": T last row");
        CHECK(pbt::near(c.a(), c.r().norm(), 10 * ang_tol), how, ": angle is not the length of the rotation vector");
        CHECK(pbt::near(c.sina(), std::sin(c.a()), eps) && pbt::near(c.cosa(), std::cos(c.a()), eps), how, ": sine/cosine of the angle");
        CHECK(max_diff(rodrigues(c.r().template cast<double>()), R) < ang_tol, how, ": rotation vector does not reproduce R: ", str(c.r()));
    };
    const eigen_ext::PrecomputedTransformComponents<S> c1(V(rv.cast<S>()), V(t.cast<S>()));
    common(c1, "from vectors", 10 * eps);
    CHECK(max_diff(c1.r(), rv) <= eps * 4, "rotation vector not kept");
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    T.block<3, 3>(0, 0) = R;
    T.block<3, 1>(0, 3) = t;
    const eigen_ext::PrecomputedTransformComponents<S> c2(M4(T.cast<S>()));
    common(c2, "from matrix", 3 * std::sqrt(eps));
    CHECK(max_diff(c2.T(), T) < tol, "T not kept");
}
PROPERTY(compact_transform, 120000, 4000000, "non-zero rotation vector and translation") {
    if (s.draw(3) == 0) precomputed_case<float>(s, 1e-6); else precomputed_case<double>(s, 1e-14);
}

template<typename S>
static void polar_case(pbt::Src& s, double tol) {
    Eigen::Vector3d p(s.wide(-3, 3), s.wide(-3, 3), s.wide(-3, 3));
    if (s.draw(5) == 0) p[0] = 0.0;
    if (s.draw(5) == 0) p[1] = 0.0;
    if (s.draw(5) == 0) p[2] = 0.0;
    const Eigen::Matrix<S, 3, 1> q = p.cast<S>();
    s.note() << "p=" << str(p);
    if (q[0] == 0 && q[1] == 0) {
        s.label("on the vertical axis");
        CHECK_THROWS(eigen_ext::cartesian_to_polar<S>(q[0], q[1], q[2]), "vertical axis accepted");
        CHECK_THROWS(eigen_ext::cartesian_to_polar<S>(q), "vertical axis accepted");
        return;
    }
    s.nontrivial(p[0] != 0 && p[1] != 0 && p[2] != 0);
    s.label(std::string(p[1] < 0 ? "y<0" : "y>=0") + (p[0] < 0 ? " x<0" : " x>=0"));
    const Eigen::Matrix<S, 3, 1> o = eigen_ext::cartesian_to_polar<S>(q[0], q[1], q[2]);
    const Eigen::Matrix<S, 3, 1> o2 = eigen_ext::cartesian_to_polar<S>(q);
    CHECK(max_diff(o, o2) == 0.0, "overloads differ");
    const double r = o[0], az = o[1], inc = o[2];
    CHECK(pbt::rel_near(r, p.norm(), tol, 0), "range ", r, " of ", str(p));
    CHECK(az >= 0.0 && az <= 2 * M_PI + tol, "azimuth outside [0, 2 pi]: ", az);
    CHECK(inc >= 0.0 && inc <= M_PI + tol, "inclination outside [0, pi]: ", inc);
    const Eigen::Vector3d back(r * std::sin(inc) * std::cos(az), r * std::sin(inc) * std::sin(az), r * std::cos(inc));
    CHECK((back - p).norm() <= 40 * std::sqrt(tol) * p.norm(), "does not convert back: ", str(back), " from ", str(p));
    // accurate away from the branch points of acos
    const double rho = std::hypot(p[0], p[1]);
    if (std::abs(p[1]) > 0.05 * rho) CHECK(pbt::near(az, std::atan2(p[1], p[0]) + (p[1] < 0 ? 2 * M_PI : 0), 100 * tol), "azimuth ", az, " of ", str(p));
    if (rho > 0.05 * p.norm()) CHECK(pbt::near(inc, std::atan2(rho, p[2]), 100 * tol), "inclination ", inc, " of ", str(p));
}
PROPERTY(polar, 120000, 4000000, "point with all coordinates non-zero") {
    if (s.draw(2) == 0) polar_case<float>(s, 1e-6); else polar_case<double>(s, 1e-13);
}
