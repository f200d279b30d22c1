// P18: match filters against the per-match definition.
#include <serpent/front_end/stereo/match_filters.hpp>

#include "gen.hpp"

namespace {
struct Data { std::vector<cv::KeyPoint> q, t; std::vector<cv::DMatch> m; };
float grid(pbt::Src& s, double hi) { return s.boolean() ? static_cast<float>(s.integer(0, static_cast<int64_t>(hi))) : static_cast<float>(s.uniform(0, hi)); }
Data data(pbt::Src& s) {
    Data d;
    const int nq = static_cast<int>(s.size(1, 15)), nt = static_cast<int>(s.size(1, 15));
    for (int i = 0; i < nq; ++i) d.q.push_back(cv::KeyPoint(grid(s, 30), grid(s, 6), 1.f));
    for (int i = 0; i < nt; ++i) d.t.push_back(cv::KeyPoint(grid(s, 30), grid(s, 6), 1.f));
    const int nm = static_cast<int>(s.size(0, 25));
    for (int i = 0; i < nm; ++i)
        d.m.push_back(cv::DMatch(static_cast<int>(s.draw(nq - 1)), static_cast<int>(s.draw(nt - 1)), static_cast<int>(s.draw(3)), grid(s, 10)));
    return d;
}
bool same(const cv::DMatch& a, const cv::DMatch& b) { return a.queryIdx == b.queryIdx && a.trainIdx == b.trainIdx && a.imgIdx == b.imgIdx && a.distance == b.distance; }

// verdict: 1 keep, 0 drop, -1 too close to the bound to decide
template<typename F>
void require(pbt::Src& s, const Data& d, const std::vector<cv::DMatch>& out, const std::vector<std::size_t>& idx, F verdict) {
    CHECK(out.size() == idx.size(), "as many indices as matches: ", out.size(), " and ", idx.size());
    std::size_t k = 0, kept = 0, dropped = 0;
    for (std::size_t i = 0; i < d.m.size(); ++i) {
        const int v = verdict(d.m[i]);
        const bool present = k < idx.size() && idx[k] == i;
        if (v == 1) CHECK(present, "match ", i, " was dropped");
        if (v == 0) CHECK(!present, "match ", i, " was kept");
        if (present) { CHECK(same(out[k], d.m[i]), "match ", i, " was modified"); ++k; ++kept; } else ++dropped;
    }
    CHECK(k == idx.size(), "indices out of order or repeated");
    s.nontrivial(kept > 0 && dropped > 0);
    s.note() << "kept " << kept << " of " << d.m.size();
}
}

PROPERTY(descriptor_distance, 30000, 600000, "some matches kept and some dropped") {
    const Data d = data(s);
    const float thr = grid(s, 10);
    auto v = [&](const cv::DMatch& m) { return m.distance <= thr ? 1 : 0; };
    std::vector<std::size_t> idx{7, 8, 9};
    const auto out = serpent::DistanceMatchFilter::filter(d.m, thr, idx);
    require(s, d, out, idx, v);
    serpent::DistanceMatchFilter f(thr);
    auto p = serpent::DistanceMatchFilter::create(thr);
    for (int pass = 0; pass < 2; ++pass) {  // state from an earlier call must not leak
        const Data e = pass ? d : data(s);
        require(s, e, f.filter(e.m), f.indices(), v);
        require(s, e, p->filter(e.m), p->indices(), v);
    }
    const auto twice = f.filter(out);
    CHECK(twice.size() == out.size() && f.indices().size() == out.size(), "filtering twice");
    serpent::DistanceMatchFilter def;
    CHECK(def.filter(d.m).size() == d.m.size(), "no limit by default");
    CHECK(serpent::DistanceMatchFilter::create()->filter(d.m).size() == d.m.size(), "no limit by default");
    CHECK(f.filter({}).empty() && f.indices().empty(), "empty input");
}

PROPERTY(stereo_geometry, 30000, 600000, "some matches kept and some dropped") {
    const Data d = data(s);
    float thr = s.chance(1, 5) ? 0.f : grid(s, 3);
    auto v = [&](const cv::DMatch& m) {
        const auto &a = d.q[m.queryIdx].pt, &b = d.t[m.trainIdx].pt;
        return a.x > b.x && std::abs(a.y - b.y) <= thr ? 1 : 0;
    };
    std::vector<std::size_t> idx{1};
    const auto out = serpent::StereoMatchFilter::filter(d.q, d.t, d.m, thr, idx);
    require(s, d, out, idx, v);
    serpent::StereoMatchFilter f(thr);
    CHECK(f.vertical_pixel_threshold() == thr, "threshold");
    require(s, d, f.filter(d.q, d.t, d.m), f.indices(), v);
    auto p = serpent::StereoMatchFilter::create(thr);
    require(s, d, p->filter(d.q, d.t, d.m), p->indices(), v);
    CHECK(f.filter(d.q, d.t, out).size() == out.size(), "filtering twice");
    thr = grid(s, 3);
    f.set_vertical_pixel_threshold(thr);
    CHECK(f.vertical_pixel_threshold() == thr, "threshold");
    require(s, d, f.filter(d.q, d.t, d.m), f.indices(), v);
    serpent::StereoMatchFilter def;
    CHECK(def.vertical_pixel_threshold() == 1.f && serpent::StereoMatchFilter::create()->vertical_pixel_threshold() == 1.f, "default threshold");
    CHECK(f.filter(d.q, d.t, {}).empty() && f.indices().empty(), "empty input");
    cv::DMatch wild(static_cast<int>(d.q.size() + s.draw(3)), 0, 0, 0.f);
    if (s.boolean()) wild = cv::DMatch(0, static_cast<int>(d.t.size() + s.draw(3)), 0, 0.f);
    CHECK_THROWS(f.filter(d.q, d.t, {wild}), "match to a keypoint that does not exist");
}

PROPERTY(stereo_distance, 30000, 600000, "some matches kept and some dropped") {
    const Data d = data(s);
    auto any_fx = [&] { return s.chance(1, 6) ? 0.f : static_cast<float>(s.uniform(1, 100)); };  // zero: not calibrated yet
    auto any_b = [&] { return s.chance(1, 6) ? 0.f : static_cast<float>(s.uniform(0.05, 2)); };
    float fx = any_fx(), b = any_b(), mx = static_cast<float>(s.uniform(1, 80)),
          mn = s.boolean() ? 0.f : static_cast<float>(s.uniform(0, 10));
    auto v = [&](const cv::DMatch& m) {
        const double disp = static_cast<double>(d.q[m.queryIdx].pt.x) - d.t[m.trainIdx].pt.x;
        if (d.q[m.queryIdx].pt.x <= d.t[m.trainIdx].pt.x) return 0;
        const double z = static_cast<double>(fx) * b / disp;
        for (const double e : {static_cast<double>(mx), static_cast<double>(mn)}) if (std::abs(z - e) <= 1e-5 * (z + e)) return -1;
        return z >= mn && z <= mx ? 1 : 0;
    };
    serpent::StereoDistanceFilter f(fx, b, mx, mn);
    auto p = serpent::StereoDistanceFilter::create(fx, b, mx, mn);
    const auto out = f.filter(d.q, d.t, d.m);
    require(s, d, out, f.indices(), v);
    require(s, d, p->filter(d.q, d.t, d.m), p->indices(), v);
    CHECK(f.filter(d.q, d.t, out).size() == out.size(), "filtering twice");
    // calibration updates, in any order
    const int n = static_cast<int>(s.integer(1, 4));
    for (int k = 0; k < n; ++k) {
        if (s.boolean()) { fx = any_fx(); f.set_fx(fx); p->set_fx(fx); }
        else { b = any_b(); f.set_baseline(b); p->set_baseline(b); }
        require(s, d, f.filter(d.q, d.t, d.m), f.indices(), v);
        require(s, d, p->filter(d.q, d.t, d.m), p->indices(), v);
    }
    mx = std::numeric_limits<float>::max();
    mn = 0.f;
    serpent::StereoDistanceFilter def(fx, b);
    require(s, d, def.filter(d.q, d.t, d.m), def.indices(), v);
    auto dc = serpent::StereoDistanceFilter::create(fx, b);
    require(s, d, dc->filter(d.q, d.t, d.m), dc->indices(), v);
    CHECK(f.filter(d.q, d.t, {}).empty() && f.indices().empty(), "empty input");
}
