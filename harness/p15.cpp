// P15: stereo projection and back-projection.
#include <serpent/front_end/stereo/stereo_equations.hpp>

#include "gen.hpp"

namespace {
template<typename S>
struct Camera { Eigen::Matrix<S, 3, 3> K; S b; };
template<typename S>
Camera<S> camera(pbt::Src& s) {
    Camera<S> c;
    c.K.setIdentity();
    c.K(0, 0) = static_cast<S>(s.uniform(50, 2000));
    c.K(1, 1) = s.chance(1, 4) ? c.K(0, 0) : static_cast<S>(s.uniform(50, 2000));
    c.K(0, 2) = static_cast<S>(s.uniform(0, 1500));
    c.K(1, 2) = static_cast<S>(s.uniform(0, 1500));
    // only focal lengths and principal point are used: every other entry is noise
    if (s.chance(1, 4)) { c.K(0, 1) = 3; c.K(1, 0) = -2; c.K(2, 0) = 5; c.K(2, 1) = 7; c.K(2, 2) = static_cast<S>(s.uniform(0.5, 2)); }
    c.b = static_cast<S>(s.uniform(0.01, 2.0));
    return c;
}

template<typename S>
void project(pbt::Src& s) {
    typedef Eigen::Matrix<S, 3, 1> V;
    const Camera<S> c = camera<S>(s);
    const double eps = sizeof(S) == 4 ? 1e-5 : 1e-12;
    const double z = s.boolean() ? std::pow(10.0, s.uniform(-2, 3)) : s.uniform(0.5, 30);
    const V p(static_cast<S>(s.real(-20, 20)), static_cast<S>(s.real(-20, 20)), static_cast<S>(z));
    s.note() << "f " << c.K(0, 0) << "," << c.K(1, 1) << " c " << c.K(0, 2) << "," << c.K(1, 2) << " b " << c.b << " p " << gen::str(p);
    s.nontrivial(p[0] != 0 && p[1] != 0);
    const V q = serpent::stereo_project<S>(p, c.K, c.b);
    const double fx = c.K(0, 0), fy = c.K(1, 1), cx = c.K(0, 2), cy = c.K(1, 2), b = c.b, x = p[0], y = p[1], Z = p[2];
    const double ul = cx + fx * x / Z, ur = cx + fx * (x - b) / Z, v = cy + fy * y / Z;
    CHECK(std::abs(q[0] - ul) <= eps * (1 + cx + std::abs(ul)), "left ", q[0], " expected ", ul);
    CHECK(std::abs(q[1] - ur) <= eps * (1 + cx + std::abs(ur) + fx * b / Z), "right ", q[1], " expected ", ur);
    CHECK(std::abs(q[2] - v) <= eps * (1 + cy + std::abs(v)), "vertical ", q[2], " expected ", v);
    CHECK(q[0] >= q[1], "disparity of a point in front of the camera is negative");
    // and back (error governed by the disparity)
    const double d = fx * b / Z;
    if (static_cast<double>(q[0]) - q[1] != 0 && d > 100 * eps * (1 + std::abs(ul) + std::abs(ur))) {
        const V r = serpent::stereo_backproject<S>(q, c.K, c.b);
        const double rel = 4 * eps * (1 + std::abs(ul) + std::abs(ur) + cx) / d + 8 * eps;
        const double lever = std::abs(x) + std::abs(y) + Z + b * (1 + std::abs(ul) + cx) / d + fx / fy * b * (1 + cy + std::abs(v)) / d;
        CHECK(gen::max_diff(r, p) <= 4 * rel * lever, "back-projection ", gen::str(r), " of ", gen::str(p));
    }
}

template<typename S>
void backproject(pbt::Src& s) {
    typedef Eigen::Matrix<S, 3, 1> V;
    const Camera<S> c = camera<S>(s);
    const double eps = sizeof(S) == 4 ? 2e-5 : 1e-11;
    const S ur = static_cast<S>(s.uniform(-200, 1500));
    const S disp = static_cast<S>(s.boolean() ? s.uniform(0.5, 200) : std::pow(2.0, static_cast<double>(s.integer(-3, 6))));
    const bool negative = s.chance(1, 6);
    const V q(negative ? ur - disp : ur + disp, ur, static_cast<S>(s.uniform(-100, 1500)));
    const double D = static_cast<double>(q[0]) - static_cast<double>(q[1]);
    s.note() << "q " << gen::str(q) << " b " << c.b;
    if (D == 0) throw pbt::Discard{};
    s.nontrivial();
    const V p = serpent::stereo_backproject<S>(q, c.K, c.b);
    const double fx = c.K(0, 0), fy = c.K(1, 1), cx = c.K(0, 2), cy = c.K(1, 2), b = c.b;
    const Eigen::Vector3d e(b * (q[0] - cx) / D, b * fx * (q[2] - cy) / (fy * D), b * fx / D);
    const double sc = 1.0 + std::abs(b / D) * (std::abs(q[0]) + cx + fx * (std::abs(q[2]) + cy) / fy + fx);
    CHECK(gen::max_diff(p, e) <= eps * sc, "point ", gen::str(p), " expected ", gen::str(e));
    if (D > 0) {
        const V r = serpent::stereo_project<S>(p, c.K, c.b);
        CHECK(gen::max_diff(r, q) <= 40 * eps * (1 + std::abs(q[0]) + std::abs(q[1]) + std::abs(q[2]) + cx + cy), "re-projection ", gen::str(r), " of ", gen::str(q));
    }
}
}

PROPERTY(project, 60000, 2000000, "a point off both image axes") { if (s.boolean()) project<double>(s); else project<float>(s); }
PROPERTY(backproject, 60000, 2000000, "non-zero disparity") { if (s.boolean()) backproject<double>(s); else backproject<float>(s); }
PROPERTY(rejects, 10000, 200000, "a point on or behind the image plane, or zero disparity") {
    s.nontrivial();
    const auto c = camera<double>(s);
    const auto f = camera<float>(s);
    const double z = s.chance(1, 3) ? 0.0 : -std::pow(10.0, s.uniform(-9, 4));
    const Eigen::Vector3d p(s.real(-20, 20), s.real(-20, 20), z);
    CHECK_THROWS(serpent::stereo_project<double>(p, c.K, c.b), gen::str(p));
    CHECK_THROWS(serpent::stereo_project<float>(Eigen::Vector3f(p.cast<float>()), f.K, f.b), gen::str(p));
    const double u = s.uniform(-100, 1500);
    CHECK_THROWS(serpent::stereo_backproject<double>(Eigen::Vector3d(u, u, s.uniform(0, 1000)), c.K, c.b));
    CHECK_THROWS(serpent::stereo_backproject<float>(Eigen::Vector3f(static_cast<float>(u), static_cast<float>(u), 3.f), f.K, f.b));
}
