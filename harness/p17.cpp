// P17: stereo keypoint matching against exhaustive search with independently computed costs.
#include <algorithm>
#include <numeric>
#include <opencv2/core.hpp>
#include <serpent/front_end/stereo/stereo_keypoint_matcher.hpp>

#include "gen.hpp"

namespace {
using serpent::StereoKeyPointMatcher;
typedef StereoKeyPointMatcher::MatchingFilter Filter;
enum Cost { SAD, SSD, ZSAD, LSAD, NCC };
const char* cost_names[] = {"SAD", "SSD", "ZSAD", "LSAD", "NCC"};

cv::Ptr<StereoKeyPointMatcher> make(Cost c, cv::Size w, float v, Filter f, double ratio, bool defaults) {
    if (defaults) switch (c) {
        case SAD: return serpent::SADStereoKeyPointMatcher::create(w);
        case SSD: return serpent::SSDStereoKeyPointMatcher::create(w);
        case ZSAD: return serpent::ZeroMeanSADStereoKeyPointMatcher::create(w);
        case LSAD: return serpent::LocallyScaledSADStereoKeyPointMatcher::create(w);
        default: return serpent::NCCStereoKeyPointMatcher::create(w);
    }
    switch (c) {
        case SAD: return serpent::SADStereoKeyPointMatcher::create(w, v, f, ratio);
        case SSD: return serpent::SSDStereoKeyPointMatcher::create(w, v, f, ratio);
        case ZSAD: return serpent::ZeroMeanSADStereoKeyPointMatcher::create(w, v, f, ratio);
        case LSAD: return serpent::LocallyScaledSADStereoKeyPointMatcher::create(w, v, f, ratio);
        default: return serpent::NCCStereoKeyPointMatcher::create(w, v, f, ratio);
    }
}

struct World {
    Cost cost;
    cv::Size w;
    cv::Mat left, right;
    bool to_right;
    const cv::Mat& ref() const { return to_right ? left : right; }
    const cv::Mat& other() const { return to_right ? right : left; }
    cv::Point top_left(cv::Point2f p) const {
        return cv::Point(static_cast<int>(std::floor(p.x)) - (w.width - 1) / 2, static_cast<int>(std::floor(p.y)) - (w.height - 1) / 2);
    }
    bool inside(cv::Point p) const { return p.x >= 0 && p.y >= 0 && p.x + w.width <= left.cols && p.y + w.height <= left.rows; }
    // cost of window a of image A (the reference) against window b of image B
    double value(const cv::Mat& A, cv::Point a, const cv::Mat& B, cv::Point b) const {
        double sa = 0, sb = 0, saa = 0, sbb = 0, sab = 0;
        const double n = w.area();
        std::vector<std::pair<double, double>> px;
        for (int y = 0; y < w.height; ++y) for (int x = 0; x < w.width; ++x) {
            const double p = A.ptr<unsigned char>(a.y + y)[a.x + x], q = B.ptr<unsigned char>(b.y + y)[b.x + x];
            px.push_back({p, q});
            sa += p; sb += q; saa += p * p; sbb += q * q; sab += p * q;
        }
        double t = 0;
        switch (cost) {
            case SAD: for (auto& [p, q] : px) t += std::abs(p - q); break;
            case SSD: for (auto& [p, q] : px) t += (p - q) * (p - q); break;
            case ZSAD: for (auto& [p, q] : px) t += std::abs((p - sa / n) - (q - sb / n)); break;
            case LSAD: for (auto& [p, q] : px) t += std::abs(p - sa / sb * q); break;
            default: t = -sab / std::sqrt(saa * sbb);
        }
        return t;
    }
};
bool exact(Cost c) { return c == SAD || c == SSD; }
double slack(const World& d) { return exact(d.cost) ? 0.0 : 1e-9 * (d.cost == NCC ? 1.0 : 255.0 * d.w.area()); }

cv::Mat image(pbt::Src& s, int rows, int cols, int lo) {
    const int m = s.boolean() ? 2 : 0;  // possibly a view into a larger image
    cv::Mat big(rows + 2 * m, cols + 2 * m, CV_8U);
    const int levels = s.pick({2, 4, 20, 250});
    uint64_t st = s.draw(UINT64_MAX);
    for (int r = 0; r < big.rows; ++r) for (int c = 0; c < big.cols; ++c) big.at<unsigned char>(r, c) = static_cast<unsigned char>(lo + pbt::splitmix(st) % levels);
    return m ? big(cv::Rect(m, m, cols, rows)) : big;
}

World world(pbt::Src& s) {
    World d;
    d.cost = static_cast<Cost>(s.draw(4));
    d.w = cv::Size(1 + 2 * static_cast<int>(s.size(0, 3)), 1 + 2 * static_cast<int>(s.size(0, 3)));
    if ((d.cost == ZSAD || d.cost == LSAD || d.cost == NCC) && d.w.area() == 1) d.w.width = 3;  // constant costs otherwise
    const int rows = d.w.height + static_cast<int>(s.draw(6)), cols = d.w.width + static_cast<int>(s.integer(0, 25));
    const int lo = d.cost == LSAD || d.cost == NCC ? 1 : 0;  // scaled costs are undefined for black windows
    d.left = image(s, rows, cols, lo);
    if (s.chance(1, 4)) d.right = image(s, rows, cols, lo);
    else {  // shifted copy with noise and a repeated texture at times
        d.right = image(s, rows, cols, lo);
        const int shift = static_cast<int>(s.draw(8)), period = s.chance(1, 4) ? static_cast<int>(s.integer(3, 8)) : 1000;
        const int noise = s.pick({0, 0, 1, 3});
        uint64_t st = s.draw(UINT64_MAX);
        for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) {
            if (c + shift >= cols) continue;
            int v = d.left.at<unsigned char>(r, (c + shift) % period < cols ? (c + shift) % period : c + shift);
            if (noise) v += static_cast<int>(pbt::splitmix(st) % (2 * noise + 1)) - noise;
            d.right.at<unsigned char>(r, c) = static_cast<unsigned char>(std::min(255, std::max(lo, v)));
        }
    }
    d.to_right = s.boolean();
    s.label(std::string(cost_names[d.cost]) + (d.to_right ? " left to right" : " right to left"));
    return d;
}
cv::KeyPoint keypoint(pbt::Src& s, const World& d) {
    const int margin = s.chance(1, 6) ? 3 : 0;
    float x = static_cast<float>(s.integer(-margin, d.left.cols - 1 + margin)), y = static_cast<float>(s.integer(-margin, d.left.rows - 1 + margin));
    if (!margin && s.chance(3, 4)) {  // window inside the image
        x = static_cast<float>((d.w.width - 1) / 2 + s.draw(d.left.cols - d.w.width));
        y = static_cast<float>((d.w.height - 1) / 2 + s.draw(d.left.rows - d.w.height));
    }
    x += s.pick({0.f, 0.f, 0.25f, 0.5f, 0.75f});
    y += s.pick({0.f, 0.f, 0.25f, 0.5f, 0.75f});
    return cv::KeyPoint(x, y, static_cast<float>(s.integer(1, 9)), static_cast<float>(s.draw(359)), static_cast<float>(s.draw(50)), static_cast<int>(s.draw(4)), static_cast<int>(s.draw(99)));
}
struct Ranked { std::vector<std::pair<double, int>> c; };  // cost, candidate
std::vector<int> argmin(const std::vector<std::pair<double, int>>& c, double tol) {
    double m = 1e300;
    for (auto& p : c) m = std::min(m, p.first);
    std::vector<int> r;
    for (auto& p : c) if (p.first <= m + tol) r.push_back(p.second);
    return r;
}
double lowest(const std::vector<std::pair<double, int>>& c) { double m = 1e300; for (auto& p : c) m = std::min(m, p.first); return m; }
bool has(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
// 1: must match, 0: must not, -1: not decided here
int ratio_verdict(std::vector<std::pair<double, int>> c, double ratio, const World& d) {
    std::sort(c.begin(), c.end());
    if (c.size() < 2) return 1;
    if (d.cost == NCC) return -1;  // negative costs
    const double tol = slack(d);
    if (c[1].first <= tol) return -1;
    const double lo = (c[0].first - tol) / (c[1].first + tol), hi = (c[0].first + tol) / (c[1].first - tol);
    if (std::abs(c[0].first / c[1].first - ratio) < 1e-9) return -1;
    return hi < ratio ? 1 : lo > ratio ? 0 : -1;
}
Filter any_filter(pbt::Src& s) { return s.pick({Filter::UNIDIRECTIONAL, Filter::BIDIRECTIONAL, Filter::RATIO_TEST}); }
}

PROPERTY(keypoint_pairs, 20000, 500000, "a keypoint with at least two admissible candidates") {
    World d = world(s);
    Filter f = any_filter(s);
    float thr = s.pick({0.f, 0.5f, 1.f, 2.f, 100.f});
    double ratio = s.pick({0.5, 0.3, 0.8, 0.95});
    const bool defaults = s.chance(1, 10);
    auto m = make(d.cost, d.w, thr, f, ratio, defaults);
    if (defaults) { f = Filter::UNIDIRECTIONAL; thr = 1.f; }
    std::vector<cv::KeyPoint> L, R;
    const int nl = static_cast<int>(s.size(0, 10)), nr = static_cast<int>(s.size(0, 10));
    for (int i = 0; i < nl; ++i) L.push_back(keypoint(s, d));
    for (int i = 0; i < nr; ++i) R.push_back(!L.empty() && s.chance(1, 4) ? [&] { auto k = L[s.draw(L.size() - 1)]; k.pt.x -= static_cast<float>(s.draw(5)); return k; }() : keypoint(s, d));
    const auto &I = d.to_right ? L : R, &O = d.to_right ? R : L;
    const double tol = slack(d);
    // admissible candidates of a keypoint among others, in one direction
    auto candidates = [&](const cv::KeyPoint& k, const std::vector<cv::KeyPoint>& others, bool right) {
        std::vector<std::pair<double, int>> c;
        const cv::Mat &A = right ? d.left : d.right, &B = right ? d.right : d.left;
        if (!d.inside(d.top_left(k.pt))) return c;
        for (std::size_t j = 0; j < others.size(); ++j) {
            const auto& o = others[j];
            if (std::abs(o.pt.y - k.pt.y) > thr) continue;
            if (right ? o.pt.x > k.pt.x : o.pt.x < k.pt.x) continue;
            if (!d.inside(d.top_left(o.pt))) continue;
            c.push_back({d.value(A, d.top_left(k.pt), B, d.top_left(o.pt)), static_cast<int>(j)});
        }
        return c;
    };
    s.label(f == Filter::UNIDIRECTIONAL ? "one-way" : f == Filter::BIDIRECTIONAL ? "two-way" : "ratio");
    std::vector<double> costs(s.draw(3), -5.0);
    const auto got = m->keypoint_indices_in_other_image(L, R, d.left, d.right, d.to_right, costs);
    CHECK(got.size() == I.size() && costs.size() == I.size(), "one answer per keypoint");
    std::vector<int> used;
    for (std::size_t i = 0; i < I.size(); ++i) {
        const auto c = candidates(I[i], O, d.to_right);
        if (c.size() >= 2) s.nontrivial();
        const auto A = argmin(c, tol);
        const int j = got[i];
        CHECK(j >= -1 && j < static_cast<int>(O.size()), "index ", j);
        auto check_cost = [&](double v) { CHECK(std::abs(v - lowest(c)) <= tol, "cost ", v, " expected ", lowest(c)); };
        // the single-keypoint search handles one-way and ratio matching
        double one_cost = -3;
        const int one = m->keypoint_index_in_other_image(I[i], O, d.left, d.right, d.to_right, one_cost);
        if (f != Filter::BIDIRECTIONAL) CHECK(one == j, "single search gives ", one, " the vector search ", j);
        else if (!c.empty()) { CHECK(has(A, one), "single search: ", one); CHECK(std::abs(one_cost - lowest(c)) <= tol, "cost"); }
        else CHECK(one == -1, "single search matched ", one, " without an admissible candidate");
        if (c.empty()) {
            CHECK(j == -1, "keypoint ", i, " matched to ", j, " without an admissible candidate");
            CHECK(one_cost == std::numeric_limits<double>::max() && costs[i] == one_cost, "cost without a candidate: ", one_cost, " ", costs[i]);
            continue;
        }
        if (j != -1) { CHECK(has(A, j), "keypoint ", i, " matched to ", j, " which is not the best candidate"); check_cost(costs[i]); }
        if (f == Filter::UNIDIRECTIONAL) CHECK(j != -1, "keypoint ", i, " not matched");
        if (f == Filter::RATIO_TEST) {
            const int v = ratio_verdict(c, ratio, d);
            if (v == 1) CHECK(j != -1, "keypoint ", i, " passes the ratio test but is not matched");
            if (v == 0) CHECK(j == -1, "keypoint ", i, " fails the ratio test but is matched");
        }
        if (f == Filter::BIDIRECTIONAL) {
            auto back = [&](int k) { return argmin(candidates(O[k], I, !d.to_right), tol); };
            if (j != -1) { CHECK(has(back(j), static_cast<int>(i)), "match ", i, " ", j, " is not mutual"); used.push_back(j); }
            else {
                bool may_fail = false;
                for (int k : A) { const auto b = back(k); if (!(b.size() == 1 && b[0] == static_cast<int>(i))) may_fail = true; }
                CHECK(may_fail, "mutually best keypoints ", i, " and ", A[0], " are not matched");
            }
        }
    }
    std::sort(used.begin(), used.end());
    CHECK(std::adjacent_find(used.begin(), used.end()) == used.end(), "two-way matching used a keypoint twice");
    s.note() << cost_names[d.cost] << " window " << d.w << " image " << d.left.size() << " keypoints " << nl << ", " << nr;
}

PROPERTY(scan_line, 20000, 500000, "a keypoint whose window is inside the image and has at least two positions to search") {
    World d = world(s);
    Filter f = any_filter(s);
    double ratio = s.pick({0.5, 0.3, 0.8, 0.95});
    const bool defaults = s.chance(1, 10);
    auto m = make(d.cost, d.w, 1.f, f, ratio, defaults);
    if (defaults) f = Filter::UNIDIRECTIONAL;
    std::vector<cv::KeyPoint> K;
    const int n = static_cast<int>(s.size(0, 6));
    for (int i = 0; i < n; ++i) K.push_back(keypoint(s, d));
    const double tol = slack(d);
    s.label(f == Filter::UNIDIRECTIONAL ? "one-way" : f == Filter::BIDIRECTIONAL ? "two-way" : "ratio");
    std::vector<double> costs(s.draw(3), -5.0);
    std::vector<bool> matched(s.draw(3), true);
    const auto got = m->keypoints_in_other_image(K, d.left, d.right, d.to_right, costs, matched);
    CHECK(got.size() == K.size() && costs.size() == K.size() && matched.size() == K.size(), "one answer per keypoint");
    for (std::size_t i = 0; i < K.size(); ++i) {
        const cv::Point a = d.top_left(K[i].pt);
        if (!d.inside(a)) {
            CHECK(!matched[i], "keypoint ", i, " outside the image is reported as matched");
            CHECK(costs[i] == std::numeric_limits<double>::max(), "cost of a keypoint outside the image: ", costs[i]);
            continue;
        }
        std::vector<std::pair<double, int>> c;
        for (int x = 0; x + d.w.width <= d.left.cols; ++x)
            if (d.to_right ? x <= a.x : x >= a.x) c.push_back({d.value(d.ref(), a, d.other(), cv::Point(x, a.y)), x});
        if (c.size() >= 2) s.nontrivial();
        bool one_matched = s.boolean();
        double one_cost = -3;
        const auto one = m->keypoint_in_other_image(K[i], d.left, d.right, d.to_right, one_cost, one_matched);
        CHECK(one_matched == matched[i] && (!one_matched || (one.pt == got[i].pt && one_cost == costs[i])), "single and vector search differ");
        const auto A = argmin(c, tol);
        const int x = static_cast<int>(std::floor(got[i].pt.x)) - (d.w.width - 1) / 2;
        if (matched[i]) {
            CHECK(std::abs(costs[i] - lowest(c)) <= tol, "cost ", costs[i], " expected ", lowest(c));
            CHECK(has(A, x), "matched at ", x, " which is not the best position ", A[0]);
            CHECK(got[i].pt == cv::Point2f(static_cast<float>(x) + d.w.width / 2.f, static_cast<float>(a.y) + d.w.height / 2.f), "not the middle of the pixel: ", got[i].pt);
            CHECK(got[i].size == K[i].size && got[i].angle == K[i].angle && got[i].response == K[i].response && got[i].octave == K[i].octave && got[i].class_id == K[i].class_id, "keypoint attributes");
        }
        if (f == Filter::UNIDIRECTIONAL) CHECK(matched[i], "keypoint ", i, " not matched");
        if (f == Filter::RATIO_TEST) {
            const int v = ratio_verdict(c, ratio, d);
            if (v == 1) CHECK(matched[i], "keypoint ", i, " passes the ratio test but is not matched");
            if (v == 0) CHECK(!matched[i], "keypoint ", i, " fails the ratio test but is matched");
        }
        if (f == Filter::BIDIRECTIONAL) {
            // a position is confirmed when no other reference window on its own scan line matches it better
            auto verdict = [&](int px) {
                const double best = lowest(c);
                int v = 1;
                for (int r = 0; r + d.w.width <= d.left.cols; ++r) {
                    if (r == a.x || (d.to_right ? r < px : r > px)) continue;
                    const double e = d.value(d.ref(), cv::Point(r, a.y), d.other(), cv::Point(px, a.y));
                    if (e < best - 2 * tol) return 0;
                    if (e < best + 2 * tol && !exact(d.cost)) v = -1;
                }
                return v;
            };
            if (matched[i]) CHECK(verdict(x) != 0, "match at ", x, " is beaten by another window");
            else {
                bool may_fail = false;
                for (int px : A) may_fail |= verdict(px) != 1;
                CHECK(may_fail, "mutually best windows are not matched");
            }
        }
    }
    s.note() << cost_names[d.cost] << " window " << d.w << " image " << d.left.size() << " keypoints " << n;
}

PROPERTY(invalid_configuration, 3000, 50000, "an invalid window, ratio, image pair or filter name") {
    const Cost c = static_cast<Cost>(s.draw(4));
    const cv::Size w(static_cast<int>(s.integer(-2, 9)), static_cast<int>(s.integer(-2, 9)));
    const double ratio = s.pick({0.5, 0.0, 1.0, -0.1, 1.5, 0.01, 0.99});
    const bool ok = w.width > 0 && w.height > 0 && w.width % 2 == 1 && w.height % 2 == 1 && ratio > 0 && ratio < 1;
    if (!ok) { s.nontrivial(); CHECK_THROWS(make(c, w, 1.f, any_filter(s), ratio, false)); }
    else {
        auto m = make(c, w, 1.f, any_filter(s), ratio, false);
        cv::Mat a(20, 20, CV_8U, cv::Scalar(3)), b(20 + static_cast<int>(s.draw(1)), 21, CV_8U, cv::Scalar(3));
        if (s.boolean()) std::swap(a, b);
        double cost; bool matched;
        const cv::KeyPoint k(10.f, 10.f, 1.f);
        CHECK_THROWS(m->keypoint_in_other_image(k, a, b, s.boolean(), cost, matched), "images of different sizes");
        CHECK_THROWS(m->keypoint_index_in_other_image(k, {k}, a, b, s.boolean(), cost), "images of different sizes");
        s.nontrivial();
    }
    CHECK(serpent::to_matching_filter("UNIDIRECTIONAL") == Filter::UNIDIRECTIONAL && serpent::to_matching_filter("BIDIRECTIONAL") == Filter::BIDIRECTIONAL && serpent::to_matching_filter("RATIO_TEST") == Filter::RATIO_TEST, "names");
    std::string name = s.pick({std::string("UNIDIRECTIONAL"), std::string("BIDIRECTIONAL"), std::string("RATIO_TEST"), std::string("")});
    const int edit = static_cast<int>(s.draw(3));
    if (edit == 0) name += " "; else if (edit == 1 && !name.empty()) name.pop_back(); else if (edit == 2) for (auto& ch : name) ch = static_cast<char>(std::tolower(ch)); else name += "X";
    if (name != "UNIDIRECTIONAL" && name != "BIDIRECTIONAL" && name != "RATIO_TEST") CHECK_THROWS(serpent::to_matching_filter(name));
}
