// Exact second derivatives of the registration costs by hyper-dual numbers in extended precision.
#pragma once
#include "gen.hpp"

namespace icp {
typedef long double L;
struct HD {  // value, d/d1, d/d2, d2/d1d2
    L f{0}, a{0}, b{0}, ab{0};
    HD() {}
    HD(L v) : f(v) {}
    HD(L v, L a_, L b_, L ab_) : f(v), a(a_), b(b_), ab(ab_) {}
};
inline HD operator+(const HD& x, const HD& y) { return {x.f + y.f, x.a + y.a, x.b + y.b, x.ab + y.ab}; }
inline HD operator-(const HD& x, const HD& y) { return {x.f - y.f, x.a - y.a, x.b - y.b, x.ab - y.ab}; }
inline HD operator*(const HD& x, const HD& y) {
    return {x.f * y.f, x.a * y.f + x.f * y.a, x.b * y.f + x.f * y.b, x.ab * y.f + x.a * y.b + x.b * y.a + x.f * y.ab};
}
inline HD chain(const HD& x, L v, L d, L dd) { return {v, d * x.a, d * x.b, d * x.ab + dd * x.a * x.b}; }

// sum_k (-s)^k / (2k + m)!  (m = 0: cos(sqrt s); m = 1: sin(sqrt s)/sqrt s; m = 2: (1 - cos(sqrt s))/s)
inline HD series(const HD& s, int m) {
    L v = 0, d = 0, dd = 0, fact = 1;
    for (int i = 2; i <= m; ++i) fact *= i;
    L coef = 1 / fact;
    L pw = 1, pd = 0, pdd = 0;  // s^k, k s^(k-1), k(k-1) s^(k-2)
    for (int k = 0; k < 40; ++k) {
        v += coef * pw;
        d += coef * pd;
        dd += coef * pdd;
        coef = -coef / ((2 * k + m + 1) * static_cast<L>(2 * k + m + 2));
        const L npdd = pdd * s.f + 2 * pd, npd = pd * s.f + pw;
        pdd = npdd; pd = npd; pw *= s.f;
    }
    return chain(s, v, d, dd);
}

enum Kind { POINT, PLANE };
// variables: 0-2 rotation vector, 3-5 translation, 6-8 source point, 9-11 target point
inline HD cost(const HD v[12], const Eigen::Vector3d& n, Kind kind, bool linearised) {
    const HD *r = v, *t = v + 3, *p = v + 6, *q = v + 9;
    const HD c[3] = {r[1] * p[2] - r[2] * p[1], r[2] * p[0] - r[0] * p[2], r[0] * p[1] - r[1] * p[0]};
    HD e[3];
    if (linearised) {
        for (int i = 0; i < 3; ++i) e[i] = p[i] + c[i] + t[i] - q[i];
    } else {
        const HD s = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
        const HD rp = r[0] * p[0] + r[1] * p[1] + r[2] * p[2];
        const HD C = series(s, 0), S = series(s, 1), V = series(s, 2);
        for (int i = 0; i < 3; ++i) e[i] = C * p[i] + S * c[i] + V * rp * r[i] + t[i] - q[i];
    }
    if (kind == POINT) return e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
    const HD d = HD(n[0]) * e[0] + HD(n[1]) * e[1] + HD(n[2]) * e[2];
    return d * d;
}
struct Halves { gen::Matrix6d dx2, dzdx; };
inline Halves half_derivatives(const Eigen::Vector3d& r, const Eigen::Vector3d& t, const Eigen::Vector3d& p, const Eigen::Vector3d& q,
        const Eigen::Vector3d& n, Kind kind, bool linearised) {
    Halves h;
    for (int i = 0; i < 6; ++i) {
        for (int j = 0; j < 12; ++j) {
            HD v[12];
            for (int k = 0; k < 3; ++k) { v[k] = HD(r[k]); v[3 + k] = HD(t[k]); v[6 + k] = HD(p[k]); v[9 + k] = HD(q[k]); }
            v[i].a = 1;
            v[j].b = 1;
            const double val = static_cast<double>(cost(v, n, kind, linearised).ab / 2);
            if (j < 6) h.dx2(i, j) = val;
            else h.dzdx(i, j - 6) = val;
        }
    }
    return h;
}
}
