// P19: stereo feature tracks over histories of frames.
// The tracker runs with a scripted detector and optical flow (real filters and matcher) against a reference model; the
// node runs with OpenCV's own detectors and flow against a separately configured tracker.
#include <ros/ros.h>
#include <opencv2/features2d.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/video/tracking.hpp>
#include <serpent/front_end/stereo/stereo_factor_finder.hpp>
#include <serpent/front_end/stereo/stereo_feature_tracker.hpp>

#include <map>
#include <set>

#include "mutex_use.hpp"
#include "gen.hpp"

namespace {
using serpent::StereoFeatureTracker;
typedef StereoFeatureTracker::Statistics Stats;
typedef std::vector<cv::KeyPoint> KPs;

uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; return x ^ (x >> 32); }
int tag(const cv::Mat& m) { return m.ptr<uchar>(0)[0]; }

struct Script {
    std::map<int, KPs> detections;  // by image tag = 2 * frame + side
    std::map<int, float> row_shift;
    int lose{0};        // one point in `lose` is lost (0: none)
    int jitter{0};      // vertical jitter in quarter pixels
    std::vector<std::string> errors;
    bool flow(int side, int frame, const cv::Point2f& p, cv::Point2f& q) const {
        uint32_t a, b;
        std::memcpy(&a, &p.x, 4); std::memcpy(&b, &p.y, 4);
        const uint64_t h = mix(mix(a) * 31 + b + 1000003ULL * static_cast<uint64_t>(2 * frame + side));
        q = p;
        q.x += 0.25f * static_cast<float>(static_cast<int>(h % 17) - 8);
        q.y += row_shift.at(frame) + (jitter ? 0.25f * static_cast<float>(static_cast<int>((h >> 8) % (2 * jitter + 1)) - jitter) : 0.0f);
        return lose == 0 || (h >> 20) % static_cast<uint64_t>(lose) != 0;
    }
};
struct Detector : cv::Feature2D {
    Script* s;
    explicit Detector(Script* s) : s(s) {}
    void detect(cv::InputArray image, KPs& out, cv::InputArray mask) override {
        out.clear();
        const cv::Mat m = mask.getMat();
        const auto it = s->detections.find(tag(image.getMat()));
        if (it == s->detections.end()) { s->errors.push_back("unknown image given to the detector"); return; }
        for (const auto& k : it->second)
            if (m.empty() || m.ptr<uchar>(static_cast<int>(k.pt.y))[static_cast<int>(k.pt.x)] != 0) out.push_back(k);
    }
};
struct Flow : cv::SparseOpticalFlow {
    Script* s;
    explicit Flow(Script* s) : s(s) {}
    void calc(cv::InputArray prev, cv::InputArray next, cv::InputArray pts, cv::InputOutputArray out, cv::OutputArray status, cv::OutputArray err) override {
        const int a = tag(prev.getMat()), b = tag(next.getMat());
        if (a + 2 != b) s->errors.push_back("optical flow from image " + std::to_string(a) + " to image " + std::to_string(b));
        const cv::Mat p = pts.getMat();
        const int n = static_cast<int>(p.checkVector(2, CV_32F));
        out.create(n, 1, CV_32FC2);
        cv::Mat o = out.getMat(), st, er;
        status.create(n, 1, CV_8U); st = status.getMat();
        if (err.needed()) { err.create(n, 1, CV_32F); er = err.getMat(); er = cv::Scalar(0); }
        for (int i = 0; i < n; ++i) {
            cv::Point2f q;
            st.ptr<uchar>(i)[0] = s->flow(b % 2, b / 2, p.at<cv::Point2f>(i), q) ? 1 : 0;
            o.at<cv::Point2f>(i) = q;
        }
    }
};
struct Track { cv::KeyPoint l, r; };
bool same_kp(const cv::KeyPoint& a, const cv::KeyPoint& b) {
    return a.pt == b.pt && a.size == b.size && a.angle == b.angle && a.response == b.response && a.octave == b.octave && a.class_id == b.class_id;
}
bool key_less(const cv::KeyPoint& a, const cv::KeyPoint& b) { return std::tie(a.pt.x, a.pt.y, a.class_id) < std::tie(b.pt.x, b.pt.y, b.class_id); }
bool pair_less(const Track& a, const Track& b) { return key_less(a.l, b.l) || (!key_less(b.l, a.l) && key_less(a.r, b.r)); }
cv::KeyPoint moved(const cv::KeyPoint& k, cv::Point2f q) { cv::KeyPoint r = k; r.pt = q; return r; }
}

PROPERTY(histories, 10000, 200000, "three frames with tracked and new features") {
    Script script;
    const int w = 60, h = 40, frames = static_cast<int>(s.size(2, 8));
    const bool textured = s.chance(3, 4);
    cv::Mat base(h, w, CV_8UC1);
    uint64_t x = s.draw(1u << 30);
    for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) { x = mix(x + 1); base.ptr<uchar>(r)[c] = static_cast<uchar>(textured ? x : (c / 3 + r / 5) * 11); }
    script.lose = static_cast<int>(s.pick({0, 3, 6, 20}));
    script.jitter = static_cast<int>(s.pick({0, 1, 3}));
    std::vector<cv::Mat> images;
    const int density = static_cast<int>(s.chance(1, 8) ? s.size(0, 3) : s.size(4, 16));
    for (int f = 0; f < frames; ++f) {
        script.row_shift[f] = 0.25f * static_cast<float>(s.integer(-6, 6));
        KPs lefts;
        for (int side = 0; side < 2; ++side) {
            cv::Mat m = base.clone();
            if (side == 1 && s.boolean()) for (int k = 0; k < 20; ++k) { x = mix(x + 1); m.ptr<uchar>(static_cast<int>(x % h))[(x >> 20) % w] = static_cast<uchar>(x >> 40); }
            m.ptr<uchar>(0)[0] = static_cast<uchar>(2 * f + side);
            images.push_back(m);
            KPs& k = script.detections[2 * f + side];
            const int n = static_cast<int>(s.chance(1, 10) ? s.integer(0, density) : s.integer(density / 2, density));
            for (int i = 0; i < n; ++i) {
                cv::KeyPoint p(0.5f * static_cast<float>(s.integer(2, 2 * w - 6)), 0.5f * static_cast<float>(s.integer(2, 2 * h - 6)), s.pick({3.0f, 7.0f, 31.0f}), s.pick({-1.0f, 90.0f}), static_cast<float>(s.draw(100)) * 0.1f, static_cast<int>(s.draw(3)), 100 * f + 10 * side + i);
                if (side == 1 && i < static_cast<int>(lefts.size()) && s.chance(3, 4)) { p.pt = lefts[i].pt; p.pt.x = std::max(1.0f, p.pt.x - 0.5f * static_cast<float>(s.integer(0, 20))); if (s.chance(1, 3)) p.pt.y += 0.5f; }
                k.push_back(p);
            }
            if (side == 0) lefts = k;
        }
    }
    const float vertical = s.pick({0.25f, 1.0f, 2.0f});
    const auto filter = static_cast<serpent::StereoKeyPointMatcher::MatchingFilter>(s.draw(2));
    const cv::Size win(static_cast<int>(s.pick({1, 3, 5})), static_cast<int>(s.pick({1, 3})));
    const auto matcher = serpent::SADStereoKeyPointMatcher::create(win, s.pick({0.5f, 1.0f, 3.0f}), filter, s.pick({0.5, 0.9}));
    const float near = s.pick({0.0f, 1.0f, 3.0f, 5.0f});
    const double cost = s.chance(3, 4) ? 1e9 : s.uniform(10, 800);
    const float fx = 100.0f, baseline = 0.5f, dmax = s.pick({5.0f, 20.0f, 1e6f}), dmin = s.pick({0.0f, 3.0f});
    bool distance = s.chance(1, 3);
    cv::Rect roi;
    if (s.chance(1, 3)) {
        roi.width = static_cast<int>(s.integer(1, w)); roi.height = static_cast<int>(s.integer(1, h));
        roi.x = static_cast<int>(s.draw(w - roi.width)); roi.y = static_cast<int>(s.draw(h - roi.height));
        s.label("region of interest");
    }
    auto dist_filter = [&] { return serpent::StereoDistanceFilter::create(fx, baseline, dmax, dmin); };
    auto distance_ok = [&](const Track& t) {
        const float d = t.l.pt.x - t.r.pt.x;  // dyadic, so exact
        const double z = static_cast<double>(fx) * baseline / d;
        return d > 0 && z >= dmin && z <= dmax;
    };
    StereoFeatureTracker tracker(cv::makePtr<Detector>(&script), cv::makePtr<Flow>(&script), serpent::StereoMatchFilter::create(vertical), matcher, near, cost, distance ? dist_filter() : nullptr, roi);
    CHECK(tracker.frame_number() == -1, "no frame processed yet");

    std::map<int, Track> tracks;  // the model
    int next_id = 0, best = 0;
    Stats reused;
    reused.match_ids = {7, 7, 7};
    reused.new_match_count = 99;
    for (int f = 0; f < frames; ++f) {
        if (!distance && s.chance(1, 8)) { tracker.set_stereo_distance_filter(dist_filter()); distance = true; s.label("distance filter set later"); }
        if (s.chance(1, 10)) {  // refused pairs leave no trace
            CHECK_THROWS(tracker.process(images[2 * f], cv::Mat(h - 1, w, CV_8UC1, cv::Scalar(0))), "different sizes");
            CHECK(tracker.frame_number() == f - 1, "frame number after a refused pair");
        }
        Stats fresh;
        Stats& st = s.boolean() ? reused : fresh;
        const bool with_stats = s.chance(3, 4), drawn = s.chance(1, 12);
        StereoFeatureTracker::IntermediateImages drawings;
        std::optional<std::reference_wrapper<Stats>> so;
        std::optional<std::reference_wrapper<StereoFeatureTracker::IntermediateImages>> io;
        if (with_stats) so = st;
        if (drawn) { io = drawings; s.label("intermediate images"); }
        const cv::Mat left = images[2 * f].clone(), right = images[2 * f + 1].clone();
        const auto got = tracker.process(left, right, so, io);
        CHECK(script.errors.empty(), script.errors.empty() ? "" : script.errors[0]);
        CHECK(cv::norm(left, images[2 * f], cv::NORM_INF) == 0 && cv::norm(right, images[2 * f + 1], cv::NORM_INF) == 0, "images modified");
        CHECK(tracker.frame_number() == f, "frame number ", tracker.frame_number());

        // model: tracked features
        std::map<int, Track> hypotheses, tracked;
        for (const auto& [id, t] : tracks) {
            cv::Point2f ql, qr;
            const bool a = script.flow(0, f, t.l.pt, ql), b = script.flow(1, f, t.r.pt, qr);
            if (a && b) hypotheses[id] = Track{moved(t.l, ql), moved(t.r, qr)};
        }
        for (const auto& [id, t] : hypotheses)
            if (t.l.pt.x > t.r.pt.x && std::abs(t.l.pt.y - t.r.pt.y) <= vertical && (!distance || distance_ok(t))) tracked[id] = t;
        // model: new features
        KPs fresh_kp[2];
        std::size_t extracted[2] = {0, 0};
        for (int side = 0; side < 2; ++side) for (const auto& k : script.detections[2 * f + side]) {
            if (roi.area() > 0 && !roi.contains(cv::Point(static_cast<int>(k.pt.x), static_cast<int>(k.pt.y)))) continue;
            ++extracted[side];
            bool close = false;
            for (const auto& [id, t] : hypotheses) {
                const cv::Point2f d = k.pt - (side == 0 ? t.l.pt : t.r.pt);
                if (static_cast<double>(d.x) * d.x + static_cast<double>(d.y) * d.y <= static_cast<double>(near) * near) close = true;
            }
            if (!close) fresh_kp[side].push_back(k);
        }
        std::vector<double> costs;
        const auto right_of = matcher->keypoint_indices_in_other_image(fresh_kp[0], fresh_kp[1], images[2 * f], images[2 * f + 1], true, costs);
        std::vector<Track> fresh_tracks;
        for (std::size_t i = 0; i < fresh_kp[0].size(); ++i) {
            if (right_of[i] < 0 || !(costs[i] < cost)) continue;
            const Track t{fresh_kp[0][i], fresh_kp[1][right_of[i]]};
            if (!distance || distance_ok(t)) fresh_tracks.push_back(t);
        }

        // compare
        CHECK(got.matches.size() == got.match_ids.size() && got.size() == tracked.size() + fresh_tracks.size(), "frame ", f, ": ", got.matches.size(), " matches, expected ", tracked.size(), " tracked and ", fresh_tracks.size(), " new");
        std::map<int, Track> now;
        std::vector<Track> seen_new;
        for (std::size_t i = 0; i < got.size(); ++i) {
            const auto& m = got.matches[i];
            CHECK(m.queryIdx >= 0 && m.queryIdx < static_cast<int>(got.keypoints[0].size()) && m.trainIdx >= 0 && m.trainIdx < static_cast<int>(got.keypoints[1].size()), "match index out of range");
            const Track t{got.keypoints[0][m.queryIdx], got.keypoints[1][m.trainIdx]};
            const int id = got.match_ids[i];
            CHECK(!now.count(id), "identity ", id, " used twice in frame ", f);
            now[id] = t;
            if (id < next_id) {
                const auto it = tracked.find(id);
                CHECK(it != tracked.end(), "identity ", id, " is reported in frame ", f, " but was not tracked into it");
                CHECK(same_kp(t.l, it->second.l) && same_kp(t.r, it->second.r), "identity ", id, " moved to (", t.l.pt.x, ",", t.l.pt.y, ") (", t.r.pt.x, ",", t.r.pt.y, ") instead of (", it->second.l.pt.x, ",", it->second.l.pt.y, ") (", it->second.r.pt.x, ",", it->second.r.pt.y, ")");
            } else {
                seen_new.push_back(t);
            }
        }
        std::sort(seen_new.begin(), seen_new.end(), pair_less);
        std::sort(fresh_tracks.begin(), fresh_tracks.end(), pair_less);
        CHECK(seen_new.size() == fresh_tracks.size(), "new features");
        for (std::size_t i = 0; i < seen_new.size(); ++i) CHECK(same_kp(seen_new[i].l, fresh_tracks[i].l) && same_kp(seen_new[i].r, fresh_tracks[i].r), "new feature ", i, " in frame ", f);
        const int new_max = next_id + static_cast<int>(fresh_tracks.size());
        for (const auto& [id, t] : now) CHECK(id < new_max, "identities of new features are consecutive");
        if (with_stats) {
            s.label(&st == &reused ? "statistics reused" : "fresh statistics");
            CHECK(st.frame_number == f, "statistics: frame number ", st.frame_number);
            CHECK(st.max_match_id == new_max - 1, "statistics: maximum id ", st.max_match_id, " expected ", new_max - 1);
            CHECK(st.longest_tracked_match_id == (tracked.empty() ? -1 : tracked.begin()->first), "statistics: longest tracked id ", st.longest_tracked_match_id);
            CHECK(st.tracked_kp_count[0] == hypotheses.size() && st.tracked_kp_count[1] == hypotheses.size(), "statistics: tracked keypoints ", st.tracked_kp_count[0]);
            CHECK(st.tracked_match_count == tracked.size() && st.new_match_count == fresh_tracks.size() && st.total_match_count == now.size(), "statistics: match counts");
            CHECK(st.extracted_kp_count[0] == extracted[0] && st.extracted_kp_count[1] == extracted[1], "statistics: extracted keypoints");
            CHECK(st.filtered_extracted_kp_count[0] == fresh_kp[0].size() && st.filtered_extracted_kp_count[1] == fresh_kp[1].size(), "statistics: filtered keypoints ", st.filtered_extracted_kp_count[0], " expected ", fresh_kp[0].size());
            std::multiset<int> ids(st.match_ids.begin(), st.match_ids.end()), want;
            for (const auto& [id, t] : now) want.insert(id);
            CHECK(ids == want, "statistics: ", ids.size(), " ids, expected ", want.size());
            serpent::StereoTrackerStatistics msg;
            serpent::to_ros(msg, st);
            CHECK(msg.frame_number == f && msg.max_match_id == st.max_match_id && msg.longest_tracked_match_id == st.longest_tracked_match_id, "statistics message");
            CHECK(msg.tracked_match_count == static_cast<int>(tracked.size()) && msg.new_match_count == static_cast<int>(fresh_tracks.size()) && msg.total_match_count == static_cast<int>(now.size()), "statistics message counts");
            for (int k = 0; k < 2; ++k) CHECK(msg.tracked_kp_count[k] == static_cast<int>(st.tracked_kp_count[k]) && msg.extracted_kp_count[k] == static_cast<int>(extracted[k]) && msg.filtered_extracted_kp_count[k] == static_cast<int>(fresh_kp[k].size()), "statistics message keypoints");
            CHECK(std::vector<int>(msg.match_ids.begin(), msg.match_ids.end()) == st.match_ids, "statistics message ids");
        }
        std::vector<serpent::StereoFeature> msg(static_cast<std::size_t>(s.draw(2)));
        serpent::to_ros(msg, got);
        CHECK(msg.size() == got.size(), "features in the message");
        for (std::size_t i = 0; i < msg.size(); ++i) {
            const auto it = now.find(static_cast<int>(msg[i].id));
            CHECK(it != now.end() && msg[i].left_x == it->second.l.pt.x && msg[i].left_y == it->second.l.pt.y && msg[i].right_x == it->second.r.pt.x && msg[i].right_y == it->second.r.pt.y, "feature message of identity ", msg[i].id);
        }
        if (!tracked.empty() && !fresh_tracks.empty()) ++best;
        tracks = now;
        next_id = new_max;
    }
    s.nontrivial(best >= 2);
    s.note() << frames << " frames, " << next_id << " identities, " << tracks.size() << " at the end";
}

namespace {
// Blobs on a textured plane seen by both cameras, displaced from frame to frame.
cv::Mat scene(uint64_t seed, int w, int h, double dx, double dy) {
    cv::Mat m(h, w, CV_8UC1, cv::Scalar(40));
    for (int i = 0; i < 25; ++i) {
        const uint64_t r = mix(seed + 17 * static_cast<uint64_t>(i));
        const double px = static_cast<double>(r % 1000) / 1000 * w * 1.4 - 0.2 * w - dx * (1.0 + (i % 3) * 0.5), py = static_cast<double>((r >> 16) % 1000) / 1000 * h - dy;
        cv::rectangle(m, cv::Rect(cvRound(px), cvRound(py), 4 + static_cast<int>((r >> 30) % 5), 4 + static_cast<int>((r >> 36) % 5)), cv::Scalar(static_cast<double>(80 + (r >> 40) % 170)), cv::FILLED);
    }
    for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) m.ptr<uchar>(r)[c] = static_cast<uchar>(m.ptr<uchar>(r)[c] + mix(seed + static_cast<uint64_t>(r * w + c)) % 4);
    return m;
}
sensor_msgs::Image image_msg(const cv::Mat& m, const ros::Time& t, const std::string& frame) {
    sensor_msgs::Image o;
    o.header.stamp = t; o.header.frame_id = frame; o.height = m.rows; o.width = m.cols; o.encoding = "mono8"; o.step = m.cols;
    o.data.assign(m.data, m.data + m.total());
    return o;
}
}

PROPERTY(node, 700, 14000, "two frames with features") {
    shim::bus().reset();
    const std::string ns = "/serpent/";
    const int w = 120, h = 90, frames = static_cast<int>(s.size(1, 4));
    cv::Ptr<cv::Feature2D> detector;
    const auto type = s.draw(3);
    if (type == 0) {
        shim::set_param(ns + "stereo_tracking/detector/type", std::string("FAST"));
        int th = 10; bool nm = true; auto ty = cv::FastFeatureDetector::TYPE_9_16;
        if (s.boolean()) { th = static_cast<int>(s.integer(5, 40)); shim::set_param(ns + "stereo_tracking/detector/fast/threshold", th); }
        if (s.boolean()) { nm = s.boolean(); shim::set_param(ns + "stereo_tracking/detector/fast/nonmax_suppression", nm); }
        if (s.boolean()) { ty = s.boolean() ? cv::FastFeatureDetector::TYPE_7_12 : cv::FastFeatureDetector::TYPE_5_8; shim::set_param(ns + "stereo_tracking/detector/fast/type", std::string(ty == cv::FastFeatureDetector::TYPE_7_12 ? "TYPE_7_12" : "TYPE_5_8")); }
        detector = cv::FastFeatureDetector::create(th, nm, ty);
    } else if (type == 1) {
        shim::set_param(ns + "stereo_tracking/detector/type", std::string("GFTT"));
        int mc = 1000, bs = 3; double q = 0.01, md = 1.0, k = 0.04; bool harris = false;
        if (s.boolean()) { mc = static_cast<int>(s.integer(1, 60)); shim::set_param(ns + "stereo_tracking/detector/gftt/max_corners", mc); }
        if (s.boolean()) { q = s.uniform(0.005, 0.2); shim::set_param(ns + "stereo_tracking/detector/gftt/quality_level", q); }
        if (s.boolean()) { md = s.uniform(1, 9); shim::set_param(ns + "stereo_tracking/detector/gftt/min_distance", md); }
        if (s.boolean()) { bs = 5; shim::set_param(ns + "stereo_tracking/detector/gftt/block_size", bs); }
        if (s.boolean()) { harris = true; shim::set_param(ns + "stereo_tracking/detector/gftt/use_harris_detector", true); k = 0.06; shim::set_param(ns + "stereo_tracking/detector/gftt/k", k); }
        detector = cv::GFTTDetector::create(mc, q, md, bs, harris, k);
    } else if (type == 2) {
        if (s.boolean()) shim::set_param(ns + "stereo_tracking/detector/type", std::string("ORB"));
        int n = 500, levels = 8, edge = 31, wta = 2, patch = 31, fast = 20, first = 0; float scale = 1.2f; auto sc = cv::ORB::HARRIS_SCORE;
        if (s.boolean()) { n = static_cast<int>(s.integer(10, 200)); shim::set_param(ns + "stereo_tracking/detector/orb/num_features", n); }
        if (s.boolean()) { levels = 3; shim::set_param(ns + "stereo_tracking/detector/orb/num_levels", levels); scale = 1.4f; shim::set_param(ns + "stereo_tracking/detector/orb/scale_factor", static_cast<double>(scale)); }
        if (s.boolean()) { edge = 11; patch = 11; shim::set_param(ns + "stereo_tracking/detector/orb/edge_threshold", edge); shim::set_param(ns + "stereo_tracking/detector/orb/patch_size", patch); }
        if (s.boolean()) { sc = cv::ORB::FAST_SCORE; shim::set_param(ns + "stereo_tracking/detector/orb/score_type", std::string("FAST_SCORE")); }
        if (s.boolean()) { wta = static_cast<int>(s.integer(2, 4)); shim::set_param(ns + "stereo_tracking/detector/orb/wta_k", wta); }
        if (s.boolean()) { fast = 8; shim::set_param(ns + "stereo_tracking/detector/orb/fast_threshold", fast); }
        detector = cv::ORB::create(n, scale, levels, edge, first, wta, sc, patch, fast);
    } else {
        shim::set_param(ns + "stereo_tracking/detector/type", std::string("SIFT"));
        int n = 10; double sigma = 1.6;
        if (s.boolean()) { n = 40; shim::set_param(ns + "stereo_tracking/detector/sift/num_features", n); }
        if (s.boolean()) { sigma = 1.2; shim::set_param(ns + "stereo_tracking/detector/sift/sigma", sigma); }
        int layers = 3; double contrast = 0.04, edge = 10.0;
        if (s.boolean()) { layers = static_cast<int>(s.integer(2, 5)); shim::set_param(ns + "stereo_tracking/detector/sift/num_octave_layers", layers); }
        if (s.boolean()) { contrast = s.uniform(0.01, 0.12); shim::set_param(ns + "stereo_tracking/detector/sift/contrast_threshold", contrast); }
        if (s.boolean()) { edge = s.uniform(2, 20); shim::set_param(ns + "stereo_tracking/detector/sift/edge_threshold", edge); }
        detector = cv::SIFT::create(n, layers, contrast, edge, sigma);
    }
    float filter_v = 1.0f;
    if (s.boolean()) { filter_v = 0.5f * static_cast<float>(s.integer(1, 6)); shim::set_param(ns + "stereo_tracking/stereo_match_filter/vertical_pixel_threshold", static_cast<double>(filter_v)); }
    cv::Size lk(21, 21);
    int level = 3, count = 30; double eps = 0.01, eig = 0;
    int crit = cv::TermCriteria::COUNT + cv::TermCriteria::EPS;
    if (s.boolean()) { lk = cv::Size(static_cast<int>(s.integer(5, 15)), static_cast<int>(s.integer(5, 15))); XmlRpc::XmlRpcValue v; v[0] = lk.width; v[1] = lk.height; shim::set_param(ns + "stereo_tracking/sparse_optical_flow/pyrlk/win_size", v); }
    if (s.boolean()) { level = static_cast<int>(s.integer(0, 3)); shim::set_param(ns + "stereo_tracking/sparse_optical_flow/pyrlk/max_level", level); }
    if (s.boolean()) { count = static_cast<int>(s.integer(1, 20)); shim::set_param(ns + "stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/max_count", count); }
    if (s.boolean()) { eps = 0.1; shim::set_param(ns + "stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/epsilon", eps); }
    if (s.boolean()) {
        const auto k = s.draw(4);
        const char* names[] = {"COUNT", "MAX_ITER", "EPS", "COUNT+EPS", "MAX_ITER+EPS"};
        crit = k < 2 ? static_cast<int>(cv::TermCriteria::COUNT) : k == 2 ? static_cast<int>(cv::TermCriteria::EPS) : crit;
        shim::set_param(ns + "stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", std::string(names[k]));
    }
    if (s.boolean()) { eig = 0.001; shim::set_param(ns + "stereo_tracking/sparse_optical_flow/pyrlk/min_eig_threshold", eig); }
    cv::Size win(3, 3);
    float mv = 1.0f; double ratio = 0.5, cost = 1.0;
    auto mf = serpent::StereoKeyPointMatcher::MatchingFilter::RATIO_TEST;
    const std::string sm = ns + "stereo_tracking/stereo_keypoint_matcher/";
    if (s.boolean()) { win = cv::Size(5, 7); shim::set_param(sm + "window_size/width", 5); shim::set_param(sm + "window_size/height", 7); }
    if (s.boolean()) { mv = 2.5f; shim::set_param(sm + "vertical_pixel_threshold", 2.5); }
    if (s.chance(2, 3)) { const auto k = s.draw(2); mf = static_cast<serpent::StereoKeyPointMatcher::MatchingFilter>(k); shim::set_param(sm + "matching_filter", std::string(k == 0 ? "UNIDIRECTIONAL" : k == 1 ? "BIDIRECTIONAL" : "RATIO_TEST")); }
    if (s.boolean()) { ratio = 0.8; shim::set_param(sm + "ratio", ratio); }
    if (s.boolean()) { ratio = s.uniform(0.2, 0.95); shim::set_param(sm + "ratio", ratio); }
    if (s.chance(5, 6)) { cost = s.uniform(50, 3000); shim::set_param(sm + "cost_threshold", cost); }
    cv::Ptr<serpent::StereoKeyPointMatcher> matcher;
    const auto cf = s.draw(4);
    const char* cfn[] = {"SAD", "SSD", "ZMSAD", "LSSAD", "NNCC"};
    if (cf != 0 || s.boolean()) shim::set_param(sm + "cost_function", std::string(cfn[cf]));
    if (cf == 0) matcher = serpent::SADStereoKeyPointMatcher::create(win, mv, mf, ratio);
    if (cf == 1) matcher = serpent::SSDStereoKeyPointMatcher::create(win, mv, mf, ratio);
    if (cf == 2) matcher = serpent::ZeroMeanSADStereoKeyPointMatcher::create(win, mv, mf, ratio);
    if (cf == 3) matcher = serpent::LocallyScaledSADStereoKeyPointMatcher::create(win, mv, mf, ratio);
    if (cf == 4) matcher = serpent::NCCStereoKeyPointMatcher::create(win, mv, mf, ratio);
    float near = 5.0f;
    if (s.boolean()) { near = static_cast<float>(s.integer(0, 12)); shim::set_param(ns + "stereo_tracking/new_feature_dist_threshold", static_cast<double>(near)); }
    cv::Rect roi;
    if (s.chance(1, 3)) {
        roi = cv::Rect(10, 5, 80, 70);
        shim::set_param(ns + "stereo_mask/enabled", true);
        shim::set_param(ns + "stereo_mask/top_left_x", 10); shim::set_param(ns + "stereo_mask/top_left_y", 5);
        shim::set_param(ns + "stereo_mask/width", 80); shim::set_param(ns + "stereo_mask/height", 70);
    }
    sensor_msgs::CameraInfo li, ri;
    li.width = ri.width = w; li.height = ri.height = h;
    const double fx = s.uniform(60, 200), fy = s.uniform(60, 200), cx = 60, cy = 45, b = s.uniform(0.05, 1.0);
    li.K = {fx, 0, cx, 0, fy, cy, 0, 0, 1}; ri.K = li.K;
    li.P = {fx, 0, cx, 0, 0, fy, cy, 0, 0, 0, 1, 0}; ri.P = li.P; ri.P[3] = -fx * b;
    bool distance = s.boolean(), refused = false;
    float dmax = std::numeric_limits<float>::max(), dmin = 0;
    if (distance) {
        shim::set_param(ns + "stereo_tracking/stereo_distance_filter/enabled", true);
        if (s.boolean()) { dmax = static_cast<float>(s.uniform(5, 50)); shim::set_param(ns + "stereo_tracking/stereo_distance_filter/max_distance", static_cast<double>(dmax)); }
        if (s.boolean()) { dmin = static_cast<float>(s.uniform(0, 5)); shim::set_param(ns + "stereo_tracking/stereo_distance_filter/min_distance", static_cast<double>(dmin)); }
        if (s.chance(1, 8)) { if (s.boolean()) ri.P[3] = -ri.P[3]; else ri.K[0] += 1; refused = true; }
    }
    const bool stats = s.boolean(), points = !refused && s.boolean(), drawn = s.chance(1, 6);
    if (stats) shim::set_param(ns + "debug/stereo/publish_stats", true);
    if (points) shim::set_param(ns + "debug/stereo/publish_points", true);
    if (drawn) { shim::set_param(ns + "debug/stereo/publish_intermediate_results", true); if (s.boolean()) shim::set_param(ns + "debug/stereo/rich_keypoints", false); }
    if (s.chance(1, 4)) shim::set_param(ns + "debug/stereo/print_stats", true);

    serpent::StereoFactorFinder node;
    StereoFeatureTracker reference(detector, cv::SparsePyrLKOpticalFlow::create(lk, level, cv::TermCriteria(crit, count, eps), 0, eig), serpent::StereoMatchFilter::create(filter_v), matcher, near, cost, distance && !refused ? serpent::StereoDistanceFilter::create(static_cast<float>(fx), static_cast<float>(b), dmax, dmin) : nullptr, roi);
    const uint64_t seed = s.draw(1u << 30);
    std::size_t total = 0;
    double dx = 0, dy = 0;
    for (int f = 0; f < frames; ++f) {
        ros::Time t;
        t.fromNSec(1600000000000000000ULL + static_cast<uint64_t>(f) * 50000000ULL + s.draw(40000000ULL));
        const cv::Mat l = scene(seed, w, h, dx, dy), r = scene(seed, w, h, dx + 5, dy);
        dx += s.uniform(-3, 3); dy += s.uniform(-2, 2);
        li.header.stamp = ri.header.stamp = t; li.header.frame_id = "left"; ri.header.frame_id = "right";
        shim::bus().published.clear();
        auto send = [&] {
            CHECK(shim::inject(ns + "stereo/left/camera_info", li) == 1, "left info subscription");
            CHECK(shim::inject(ns + "stereo/right/camera_info", ri) == 1, "right info subscription");
            CHECK(shim::inject(ns + "stereo/left/image", image_msg(l, t, "left_camera")) == 1, "left subscription");
            CHECK(shim::inject(ns + "stereo/right/image", image_msg(r, t, "right_camera")) == 1, "right subscription");
        };
        if (refused) {
            CHECK_THROWS(send(), "calibration without a usable baseline");
            s.label("refused calibration");
            return;
        }
        send();
        Stats st;
        const auto want = reference.process(l, r, std::ref(st));
        const auto got = shim::captured<serpent::StereoFeatures>(ns + "stereo/features");
        CHECK(got.size() == 1, "one features message per stereo pair, got ", got.size());
        CHECK(got[0].header.stamp == t && got[0].header.frame_id == "left_camera", "features header");
        CHECK(got[0].left_info.K == li.K && got[0].right_info.P == ri.P && got[0].left_info.header.frame_id == "left" && got[0].right_info.header.frame_id == "right" && got[0].left_info.width == li.width, "calibration in the message");
        CHECK(got[0].features.size() == want.size(), "frame ", f, ": ", got[0].features.size(), " features, expected ", want.size());
        std::map<int64_t, std::array<float, 4>> m;
        for (std::size_t i = 0; i < want.size(); ++i) { const auto& a = want.keypoints[0][want.matches[i].queryIdx].pt; const auto& c = want.keypoints[1][want.matches[i].trainIdx].pt; m[want.match_ids[i]] = {a.x, a.y, c.x, c.y}; }
        CHECK(m.size() == want.size(), "identities");
        std::vector<Eigen::Vector3d> expected;
        for (const auto& g : got[0].features) {
            const auto it = m.find(g.id);
            CHECK(it != m.end() && g.left_x == it->second[0] && g.left_y == it->second[1] && g.right_x == it->second[2] && g.right_y == it->second[3], "feature ", g.id, " in frame ", f);
            const double d = g.left_x - g.right_x;
            if (d > 0) { const double z = fx * b / d; expected.push_back({(g.left_x - cx) * z / fx, (0.5 * (g.left_y + g.right_y) - cy) * z / fy, z}); }
        }
        total += m.size();
        if (stats) {
            const auto sg = shim::captured<serpent::StereoTrackerStatistics>(ns + "stereo/statistics");
            CHECK(sg.size() == 1 && sg[0].header.stamp == t, "statistics message");
            CHECK(sg[0].frame_number == f && sg[0].total_match_count == static_cast<int>(want.size()) && sg[0].max_match_id == st.max_match_id && sg[0].tracked_match_count == static_cast<int>(st.tracked_match_count) && sg[0].extracted_kp_count[0] == static_cast<int>(st.extracted_kp_count[0]) && sg[0].extracted_kp_count[1] == static_cast<int>(st.extracted_kp_count[1]), "statistics");
        } else {
            CHECK(shim::count(ns + "stereo/statistics") == 0, "statistics not asked for");
        }
        if (points) {
            const auto pc = shim::captured<pcl::PointCloud<pcl::PointXYZ>>(ns + "stereo/track_points");
            CHECK(pc.size() == 1 && pc[0].header.stamp == t.toNSec() / 1000 && pc[0].header.frame_id == "left_camera", "points message");
            CHECK(pc[0].size() == expected.size(), "points: ", pc[0].size(), " expected ", expected.size());
            for (std::size_t i = 0; i < expected.size(); ++i) {
                bool found = false;
                for (const auto& p : pc[0]) found |= (Eigen::Vector3d(p.x, p.y, p.z) - expected[i]).norm() <= 1e-3 * (1 + expected[i].norm());
                CHECK(found, "no point at ", expected[i].transpose());
            }
        }
    }
    s.label(type == 0 ? "FAST" : type == 1 ? "GFTT" : type == 2 ? "ORB" : "SIFT");
    s.nontrivial(frames >= 2 && total > 4);
    s.note() << frames << " frames, " << total << " features";
}
