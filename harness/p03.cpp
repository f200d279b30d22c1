// P03: covariance validation and reordering, matrix helpers.
#include <eigen_ext/covariance.hpp>
#include <eigen_ext/matrix.hpp>

#include "gen.hpp"
using namespace gen;
typedef Eigen::MatrixXd X;

static X random_spd(pbt::Src& s, int n, double min_eig) {
    X A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.real(-2, 2);
    X C = A * A.transpose();
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) C(i, j) = C(j, i);
    for (int i = 0; i < n; ++i) C(i, i) += min_eig;
    return C;
}
static bool exactly_symmetric(const X& m) {
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < i; ++j) if (m(i, j) != m(j, i)) return false;
    return true;
}
template<int N>
static bool valid_fixed(const X& m, double p, bool use_default) {
    const Eigen::Matrix<double, N, N> f = m;
    return use_default ? eigen_ext::is_valid_covariance(f) : eigen_ext::is_valid_covariance(f, p);
}
static bool valid(const X& m, double p, bool use_default, bool fixed) {
    if (fixed && m.rows() == m.cols()) {
        switch (m.rows()) {
            case 2: return valid_fixed<2>(m, p, use_default);
            case 3: return valid_fixed<3>(m, p, use_default);
            case 6: return valid_fixed<6>(m, p, use_default);
            default: break;
        }
    }
    return use_default ? eigen_ext::is_valid_covariance(m) : eigen_ext::is_valid_covariance(m, p);
}

PROPERTY(validity, 150000, 3000000, "square matrix of dimension >= 2") {
    const int n = static_cast<int>(s.integer(1, 7));
    const bool fixed = s.boolean();
    X C = random_spd(s, n, 0.05);
    const double big = C.cwiseAbs().maxCoeff();
    s.nontrivial(n >= 2);
    const int kind = static_cast<int>(s.draw(7));
    const int i = static_cast<int>(s.integer(0, n - 1)), j = static_cast<int>(s.integer(0, n - 1));
    bool expect = true, def = s.boolean();
    double prec = def ? 0.0 : std::pow(10.0, s.uniform(-9, -2));
    std::string what;
    switch (kind) {
        case 0: what = "symmetric positive definite"; break;
        case 1: {  // one entry disturbed
            if (i == j) { what = "symmetric positive definite"; break; }
            what = "asymmetric beyond precision";
            const double d = std::max(4 * prec, 1e-7) * (1.0 + s.unit());
            C(i, j) += s.boolean() ? d : -d;
            expect = false;
            break;
        }
        case 2: {  // disturbed within the precision
            if (i == j || def) { what = "symmetric positive definite"; break; }
            what = "asymmetric within precision";
            C(i, j) += (s.boolean() ? 0.5 : -0.5) * prec;   // prec <= 0.01, smallest eigenvalue >= 0.05: stays definite
            expect = true;
            break;
        }
        case 3: {  // not finite
            what = "not finite";
            const double v = s.boolean() ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
            C(i, j) = v;
            if (s.boolean()) C(j, i) = v;
            expect = false;
            break;
        }
        case 4: {  // indefinite: make one eigenvalue clearly negative
            what = "indefinite";
            Eigen::SelfAdjointEigenSolver<X> es(C);
            Eigen::VectorXd ev = es.eigenvalues();
            ev[i] = -0.05 - s.unit() * big;
            C = es.eigenvectors() * ev.asDiagonal() * es.eigenvectors().transpose();
            for (int r = 0; r < n; ++r) for (int c = 0; c < r; ++c) C(r, c) = C(c, r);
            expect = false;
            break;
        }
        case 5: {  // not square
            what = "not square";
            const int m = n + static_cast<int>(s.integer(1, 3));
            X D = X::Zero(s.boolean() ? n : m, 0);
            D = D.rows() == n ? X(X::Ones(n, m)) : X(X::Ones(m, n));
            for (int k = 0; k < n; ++k) D(k, k) = 5.0;
            C = D;
            expect = false;
            break;
        }
        case 6: {  // negative or zero diagonal entry
            what = "non-positive diagonal";
            C(i, i) = s.boolean() ? -s.uniform(0.01, 3) : 0.0;
            expect = false;
            break;
        }
        default: {  // widely scaled diagonal
            what = "widely scaled";
            X D = X::Zero(n, n);
            for (int k = 0; k < n; ++k) D(k, k) = std::pow(10.0, s.uniform(-9, 6));
            C = D;
            break;
        }
    }
    s.label(what);
    s.note() << what << " n=" << n << " prec=" << prec << " C=" << str(C);
    CHECK(valid(C, prec, def, fixed) == expect, what, ": accepted=", !expect, " matrix ", str(C), " precision ", prec);
    // symmetric test on its own
    if (kind != 3) {
        bool sym = C.rows() == C.cols();
        if (sym) for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) sym &= !(std::abs(C(r, c) - C(c, r)) > prec);
        CHECK(eigen_ext::is_symmetric(C, prec) == sym, "is_symmetric of ", str(C));
        if (C.rows() == C.cols() && exactly_symmetric(C)) {
            CHECK(eigen_ext::is_positive_definite(C) == expect, "is_positive_definite of ", str(C));
            const X Cn = -C;
            CHECK(!eigen_ext::is_positive_definite(Cn) || !expect, "negated definite matrix accepted");
            const X f = C.cast<double>();
            CHECK(eigen_ext::is_symmetric(f), "default precision");
        }
    }
}

template<int N>
static void reorder_fixed(const X& C, int b, const X& ref) {
    const Eigen::Matrix<double, N, N> f = C;
    const Eigen::Matrix<double, N, N> got = eigen_ext::reorder_covariance(f, b);
    CHECK(max_diff(got, ref) == 0.0, "fixed size ", N, " boundary ", b, ": ", str(got));
}
PROPERTY(reorder, 150000, 3000000, "dimension >= 3, boundary inside, all entries distinct") {
    const int n = static_cast<int>(s.integer(2, 9));
    X C(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) C(i, j) = s.boolean() ? i * 100 + j + 1 : s.uniform(-5, 5);
    const int b = static_cast<int>(s.integer(1, n - 1));
    s.nontrivial(n >= 3);
    s.note() << "n=" << n << " boundary=" << b << " C=" << str(C);
    X ref(n, n);
    auto old = [&](int k) { return (k + b) % n; };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ref(i, j) = C(old(i), old(j));
    const X got = eigen_ext::reorder_covariance(C, b);
    CHECK(max_diff(got, ref) == 0.0, "dynamic size ", n, " boundary ", b, ": ", str(got), " expected ", str(ref));
    const X back = eigen_ext::reorder_covariance(got, n - b);
    CHECK(max_diff(back, C) == 0.0, "reordering at the complementary boundary does not restore the matrix");
    switch (n) {
        case 2: reorder_fixed<2>(C, b, ref); break;
        case 3: reorder_fixed<3>(C, b, ref); break;
        case 6: reorder_fixed<6>(C, b, ref); break;
        case 9: reorder_fixed<9>(C, b, ref); break;
        default: break;
    }
    const Eigen::Index bad = s.pick(std::vector<Eigen::Index>{0, n, n + 1, n + 5, -1, -n});
    CHECK_THROWS(eigen_ext::reorder_covariance(C, bad), "boundary ", bad, " of ", n);
    const X rect = X::Ones(n, n + 1);
    CHECK_THROWS(eigen_ext::reorder_covariance(rect, b), "not square");
}

template<typename S>
static void skew_case(pbt::Src& s) {
    typedef Eigen::Matrix<S, 3, 1> V;
    typedef Eigen::Matrix<S, 3, 3> M;
    const V v(static_cast<S>(s.wide(-4, 4)), static_cast<S>(s.wide(-4, 4)), static_cast<S>(s.wide(-4, 4)));
    const V w(static_cast<S>(s.real(-4, 4)), static_cast<S>(s.real(-4, 4)), static_cast<S>(s.real(-4, 4)));
    s.nontrivial(v[0] != 0 && v[1] != 0 && v[2] != 0);
    s.note() << "v=" << str(v);
    const M K = eigen_ext::skew_symmetric(v);
    CHECK(max_diff(K, M(-K.transpose())) == 0.0, "not skew: ", str(K));
    const V c(v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]);
    CHECK(max_diff(V(K * w), c) <= 1e-5 * scale_of(v) * scale_of(w), "skew(v) w != v x w");
    CHECK(max_diff(eigen_ext::from_skew_symmetric(K), v) == 0.0, "vector not recovered from ", str(K));
    // a matrix that is clearly not skew-symmetric is rejected
    M B = K;
    const int i = static_cast<int>(s.draw(2)), j = static_cast<int>(s.draw(2));
    const S d = static_cast<S>((s.boolean() ? 1 : -1) * (0.01 + s.unit()) * scale_of(v));
    B(i, j) += d;
    s.label(i == j ? (d > 0 ? "positive diagonal" : "negative diagonal") : "unbalanced pair");
    CHECK_THROWS(eigen_ext::from_skew_symmetric(B), "not skew-symmetric: ", str(B));
}
PROPERTY(skew, 150000, 3000000, "vector with all components non-zero") {
    if (s.draw(3) == 0) skew_case<float>(s); else skew_case<double>(s);
}

PROPERTY(interpolate, 100000, 2000000, "end points differ, interpolation inside or outside [0,1]") {
    const double a = s.draw(5) == 0 ? static_cast<double>(s.draw(1)) : s.uniform(-1.5, 2.5);
    const Eigen::Vector3d p = vec3(s), q = vec3(s);
    s.nontrivial(p != q);
    s.note() << "p=" << str(p) << " q=" << str(q) << " a=" << a;
    const Eigen::Vector3d r = eigen_ext::linear_interpolate(p, q, a);
    CHECK(max_diff(r, Eigen::Vector3d(p + a * (q - p))) < 1e-12 * (scale_of(p) + scale_of(q)), "vector interpolation at ", a, ": ", str(r));
    if (a == 0.0) CHECK(r == p, "start point");
    if (a == 1.0) CHECK(r == q, "end point");
    const Eigen::MatrixXd A = matrix<3, 2>(s), B = matrix<3, 2>(s);
    const Eigen::MatrixXd D = eigen_ext::linear_interpolate(A, B, a);
    CHECK(max_diff(D, Eigen::MatrixXd(A + a * (B - A))) < 1e-12 * (scale_of(A) + scale_of(B)), "matrix interpolation");
}

PROPERTY(normalise, 100000, 2000000, "non-zero vector") {
    const Eigen::Vector3d v(s.wide(-5, 5), s.wide(-5, 5), s.wide(-5, 5));
    s.note() << "v=" << str(v);
    if (v.isZero(0.0)) {
        s.label("zero vector");
        CHECK_THROWS(eigen_ext::safe_normalise(v), "zero vector");
        CHECK_THROWS(eigen_ext::safe_normalise(0.0, 0.0, 0.0), "zero vector");
        return;
    }
    s.nontrivial();
    const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    const Eigen::Vector3d u = eigen_ext::safe_normalise(v), u2 = eigen_ext::safe_normalise(v[0], v[1], v[2]);
    CHECK(max_diff(u * n, v) < 1e-14 * n + 1e-300 && pbt::near(u.norm(), 1.0, 1e-14), "not the unit vector along ", str(v));
    CHECK(u == u2, "overloads differ");
    const Eigen::Vector2d v2(v[0], v[1] == 0 ? 1.0 : v[1]);
    CHECK(pbt::near(eigen_ext::safe_normalise(v2).norm(), 1.0, 1e-14), "two-dimensional");
    // diagonal test
    Eigen::Matrix3d M = matrix<3, 3>(s, 3);
    const int k = static_cast<int>(s.draw(2));
    for (int i = 0; i < 3; ++i) M(i, i) = 0.001 + s.unit();
    CHECK(eigen_ext::non_zero_diagonals(M), "positive diagonal reported as zero: ", str(M));
    M(k, k) = 0.0;
    CHECK(!eigen_ext::non_zero_diagonals(M), "zero diagonal entry not reported: ", str(M));
}
