// P20: the graph store against a ledger; the optimiser against a second optimiser fed from the ledger.
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <serpent/back_end/graph_manager.hpp>

#include "ledger.hpp"

namespace {
using namespace ledger;
gtsam::Pose3 pose(pbt::Src& s, double mag = 10) { return gtsam::Pose3(gtsam::Rot3(gen::rotation(s, false)), gtsam::Point3(gen::vec3(s, mag))); }
gtsam::Vector3 v3(pbt::Src& s, double mag = 5) { return gtsam::Vector3(gen::vec3(s, mag)); }
gtsam::SharedNoiseModel iso(pbt::Src& s, int n) { return gtsam::noiseModel::Isotropic::Sigma(n, s.uniform(0.05, 2.0)); }
ros::Time at(int k) { return ros::Time(100 + k, 1000 * k); }

void same_factors(const gtsam::NonlinearFactorGraph& got, std::vector<FactorPtr> want, const std::string& what) {
    CHECK(got.size() == want.size(), what, ": ", got.size(), " factors instead of ", want.size());
    for (const auto& f : got) {
        bool found = false;
        for (std::size_t i = 0; i < want.size() && !found; ++i)
            if (f->keys() == want[i]->keys() && f->equals(*want[i], 1e-6)) { want.erase(want.begin() + static_cast<long>(i)); found = true; }
        if (!found) { std::string keys; for (Key k : f->keys()) keys += gtsam::DefaultKeyFormatter(k) + " "; CHECK(false, what, ": unexpected factor on ", keys); }
    }
}
struct Open : serpent::GraphManager {
    using serpent::GraphManager::extract_new_factors;
    using serpent::GraphManager::extract_new_values;
    using serpent::GraphManager::all_factors;
};
boost::shared_ptr<gtsam::PreintegratedCombinedMeasurements::Params> imu_params() {
    auto p = gtsam::PreintegratedCombinedMeasurements::Params::MakeSharedU(9.81);
    p->accelerometerCovariance = 1e-4 * Eigen::Matrix3d::Identity();
    p->gyroscopeCovariance = 1e-5 * Eigen::Matrix3d::Identity();
    p->integrationCovariance = 1e-6 * Eigen::Matrix3d::Identity();
    p->biasAccCovariance = 1e-5 * Eigen::Matrix3d::Identity();
    p->biasOmegaCovariance = 1e-6 * Eigen::Matrix3d::Identity();
    p->biasAccOmegaInt = 1e-7 * Eigen::Matrix<double, 6, 6>::Identity();
    return p;
}
Features features(pbt::Src& s, int ids) {
    Features f;
    const int n = static_cast<int>(s.integer(0, 5));
    for (int i = 0; i < n; ++i) {
        const double ul = s.uniform(50, 600);
        f[static_cast<int>(s.draw(ids))] = gtsam::StereoPoint2(ul, ul - s.uniform(5, 60), s.uniform(20, 400));
    }
    return f;
}
void compare(const serpent::GraphManager& g, const Ledger& l, const std::string& h) {
    same_values(g.values(), l.values, "all values after " + h);
    CHECK(g.timestamps() == l.times, "timestamps after ", h);
    for (const auto& n : l.names) CHECK(g.key(n.first) == n.second.first && g.priority(n.first) == n.second.second && g.key(n.first, 3) == n.second.first + 3, "named key ", n.first, " after ", h);
}
}

PROPERTY(histories, 12000, 240000, "stereo landmarks, several factor kinds and an extraction in one history") {
    Open g;
    Ledger l;
    const int K = 6;
    l.cam = pose(s, 1);
    l.K = boost::make_shared<gtsam::Cal3_S2Stereo>(s.uniform(300, 500), s.uniform(300, 500), 0.0, s.uniform(300, 340), s.uniform(200, 260), s.uniform(0.05, 0.5));
    l.stereo_noise = iso(s, 3);
    CHECK(!g.stereo_calibration(), "no calibration at first");
    g.set_body_to_stereo_left_cam_pose(l.cam);
    if (s.boolean()) g.set_stereo_calibration(l.K); else g.set_stereo_calibration(*l.K);
    CHECK(g.stereo_calibration() && g.stereo_calibration()->equals(*l.K, 1e-9), "calibration");
    g.set_stereo_noise_model(l.stereo_noise);
    CHECK_THROWS(g.minimum_key());
    CHECK_THROWS(g.key("imu"));
    CHECK_THROWS(g.increment("imu"));
    const std::vector<std::string> names{"imu", "reg", "stereo", "barometer"};
    std::string h;
    int kinds = 0, extractions = 0, stereo_key = 0;
    static const auto params = imu_params();
    const int n = static_cast<int>(s.size(5, 40));
    auto name_of = [&](int k) -> std::string { for (const auto& e : l.names) if (e.second.first == k) return e.first; return ""; };
    for (int step = 0; step < n; ++step) {
        const int k = static_cast<int>(s.draw(K)), op = static_cast<int>(s.draw(17));
        // address the key by a name, or a number of keys from a name, now and then
        std::string by;
        int off = 0;
        if (s.boolean() && !l.names.empty()) {
            if (s.boolean()) by = name_of(k);
            else {
                auto e = l.names.begin();
                std::advance(e, s.draw(l.names.size() - 1));
                by = e->first, off = k - e->second.first;
            }
        }
        h += " " + std::to_string(op) + "@" + std::to_string(k);
        switch (op) {
            case 0: case 1: { const auto p = pose(s); if (by.empty()) g.set_pose(k, p); else if (off == 0) g.set_pose(by, p); else g.set_pose(by, p, off); l.put(sym('x', k), p); break; }
            case 2: { const gtsam::Velocity3 v = v3(s); if (by.empty()) g.set_velocity(k, v); else if (off == 0) g.set_velocity(by, v); else g.set_velocity(by, v, off); l.put(sym('v', k), v); break; }
            case 3: { const gtsam::imuBias::ConstantBias b(v3(s), v3(s)); if (by.empty()) g.set_imu_bias(k, b); else if (off == 0) g.set_imu_bias(by, b); else g.set_imu_bias(by, b, off); l.put(sym('b', k), b); break; }
            case 4: { const double b = s.uniform(-5, 5); if (by.empty()) g.set_barometer_bias(k, b); else if (off == 0) g.set_barometer_bias(by, b); else g.set_barometer_bias(by, b, off); l.put(sym('p', k), b); break; }
            case 5: { const ros::Time t = ros::Time(10 + s.draw(100), s.draw(999999999)); if (by.empty()) g.set_timestamp(k, t); else if (off == 0) g.set_timestamp(by, t); else g.set_timestamp(by, t, off); l.times[k] = t; break; }
            case 6: { const gtsam::NavState v(pose(s), v3(s)); if (by.empty()) g.set_navstate(k, v); else if (off == 0) g.set_navstate(by, v); else g.set_navstate(by, v, off); l.put(sym('x', k), v.pose()); l.put(sym('v', k), gtsam::Velocity3(v.velocity())); break; }
            case 7: {
                const std::string nm = s.pick(names);
                if (l.names.count(nm) && s.boolean()) { g.increment(nm); ++l.names[nm].first; }
                else {
                    const unsigned pr = static_cast<unsigned>(s.draw(2));
                    if (pr == 0 && k == 0) g.set_named_key(nm);
                    else if (pr == 0) g.set_named_key(nm, k);
                    else g.set_named_key(nm, k, pr);
                    l.names[nm] = {k, pr};
                }
                break;
            }
            case 8: { const auto noise = iso(s, 6); const auto p = pose(s); g.create_prior_pose_factor(k, p, noise); l.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Pose3>>(sym('x', k), p, noise)); kinds |= 1; break; }
            case 9: { const auto noise = iso(s, 3); const gtsam::Velocity3 v = v3(s); g.create_prior_velocity_factor(k, v, noise); l.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Velocity3>>(sym('v', k), v, noise)); kinds |= 2; break; }
            case 10: { const auto noise = iso(s, 6); const gtsam::imuBias::ConstantBias b(v3(s), v3(s)); g.create_prior_imu_bias_factor(k, b, noise); l.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::imuBias::ConstantBias>>(sym('b', k), b, noise)); kinds |= 4; break; }
            case 11: {
                const auto noise = iso(s, 1);
                if (s.boolean()) { const double b = s.uniform(-5, 5); g.create_prior_barometer_bias_factor(k, b, noise); l.add(k, boost::make_shared<gtsam::PriorFactor<double>>(sym('p', k), b, noise)); }
                else if (k > 0) { g.create_barometric_bias_factor(k, noise); l.add(k, boost::make_shared<gtsam::BetweenFactor<double>>(sym('p', k - 1), sym('p', k), 0.0, noise)); }
                kinds |= 8;
                break;
            }
            case 12: {
                const auto noise = iso(s, 1);
                const double kpa = s.uniform(60, 110);
                const double height = g.create_barometric_factor(k, kpa, noise);
                CHECK(pbt::near(height, (288.14 - 288.08 * std::pow(kpa / 101.29, 1.0 / 5.256)) / 0.00649, 1e-6), "height of ", kpa, " kPa: ", height);
                l.add(k, boost::make_shared<gtsam::BarometricFactor>(sym('x', k), sym('p', k), kpa, noise));
                kinds |= 16;
                break;
            }
            case 13: if (k > 0) { const auto noise = iso(s, 6); const auto p = pose(s); g.create_between_pose_factor(k, p, noise); l.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(sym('x', k - 1), sym('x', k), p, noise)); kinds |= 32; } break;
            case 14: if (k > 0) {
                gtsam::PreintegratedCombinedMeasurements pim(params, gtsam::imuBias::ConstantBias());
                for (int i = 0; i < 2; ++i) pim.integrateMeasurement(v3(s, 3) + gtsam::Vector3(0, 0, 9.81), v3(s, 0.5), 0.01);
                g.create_combined_imu_factor(k, pim);
                l.add(k, boost::make_shared<gtsam::CombinedImuFactor>(sym('x', k - 1), sym('v', k - 1), sym('x', k), sym('v', k), sym('b', k - 1), sym('b', k), pim));
                kinds |= 64;
            } break;
            case 15: case 16: {  // stereo features at increasing keys
                if (stereo_key > K) break;
                if (s.chance(1, 3)) ++stereo_key;  // a missed key
                Features f = features(s, 6);
                if (!l.features.empty() && s.chance(2, 3)) for (const auto& e : l.features.rbegin()->second) { const double ul = s.uniform(50, 600); f[e.first] = gtsam::StereoPoint2(ul, ul - s.uniform(5, 60), s.uniform(20, 400)); }
                if (!l.features.empty() && !l.values.exists(sym('x', stereo_key))) {
                    if (s.boolean()) { const auto p = pose(s); g.set_pose(stereo_key, p); l.put(sym('x', stereo_key), p); }
                    else { Open copy = g; CHECK_THROWS(copy.create_stereo_factors_and_values(stereo_key, f), "pose not set"); break; }
                }
                Ledger before = l;
                if (l.observe(stereo_key, f)) {
                    g.create_stereo_factors_and_values(stereo_key, f);
                    Open copy = g;
                    CHECK_THROWS(copy.create_stereo_factors_and_values(stereo_key, f), "features set twice");
                    ++stereo_key;
                    if (!l.landmarks.empty()) kinds |= 128;
                } else {
                    l = before;
                    Open copy = g;
                    CHECK_THROWS(copy.create_stereo_factors_and_values(stereo_key, f), "reacquired feature");
                    s.label("reacquired feature");
                    Features none;
                    l.observe(stereo_key, none);
                    g.create_stereo_factors_and_values(stereo_key, none);
                    ++stereo_key;
                }
                break;
            }
            default: {  // what the optimiser would be given
                const int max = static_cast<int>(s.draw(K));
                same_factors(g.extract_new_factors(max), l.take_factors(max), "new factors after " + h);
                same_values(g.extract_new_values(max), l.take_values(max), "new values after " + h);
                ++extractions;
                if (s.boolean() && !l.values.empty()) {  // an optimiser update
                    gtsam::Values u;
                    for (Key y : l.values.keys()) if (s.boolean()) {
                        const gtsam::Symbol q(y);
                        if (q.chr() == 'x') u.insert(y, pose(s));
                        else if (q.chr() == 's') u.insert(y, gtsam::Point3(v3(s)));
                        else if (q.chr() == 'p') u.insert(y, s.uniform(-5, 5));
                        else if (q.chr() == 'v') u.insert(y, gtsam::Velocity3(v3(s)));
                    }
                    g.update_from_values(u);
                    l.values.update(u);
                    if (s.chance(1, 4)) { gtsam::Values unknown; unknown.insert(sym('x', 77), gtsam::Pose3()); Open copy = g; CHECK_THROWS(copy.update_from_values(unknown), "unknown value"); }
                }
                if (s.boolean()) { CHECK(g.extract_new_factors(max).empty() && g.extract_new_values(max).empty(), "nothing is new a second time after ", h); }
            }
        }
        compare(g, l, h);
    }
    // queries
    std::vector<FactorPtr> all;
    for (const auto& e : l.factors) for (const auto& f : e.second) all.push_back(f);
    same_factors(g.all_factors(), all, "all factors after " + h);
    for (int q = 0; q < 4; ++q) {
        const int a = static_cast<int>(s.draw(K)), b = a + static_cast<int>(s.draw(K));
        std::vector<FactorPtr> range;
        gtsam::Values vals;
        for (const auto& e : l.factors) if (e.first >= a && e.first <= b) for (const auto& f : e.second) range.push_back(f);
        for (Key y : l.values.keys()) { const gtsam::Symbol z(y); if (z.chr() != 's' && int(z.index()) >= a && int(z.index()) <= b) vals.insert(y, l.values.at(y)); }
        for (const auto& e : l.landmarks) if (e.first >= a && e.first <= b) for (int id : e.second) vals.insert(sym('s', id), l.values.at(sym('s', id)));
        same_factors(static_cast<const serpent::GraphManager&>(g).factors(a, b), range, "factors of keys " + std::to_string(a) + " to " + std::to_string(b) + " after " + h);
        same_values(g.values(a, b), vals, "values of keys " + std::to_string(a) + " to " + std::to_string(b) + " after " + h);
    }
    std::map<int, gtsam::Point3> lm;
    for (int k = 0; k <= K + 1; ++k) {
        const Key x = sym('x', k), v = sym('v', k), b = sym('b', k), p = sym('p', k);
        CHECK(g.has_pose(k) == l.values.exists(x), "has_pose ", k);
        if (l.values.exists(x)) {
            CHECK(g.pose(k).equals(l.values.at<gtsam::Pose3>(x), 1e-9) && g.value(x).equals_(l.values.at(x), 1e-9), "pose ", k);
            CHECK(g.stereo_camera(k).pose().equals(l.values.at<gtsam::Pose3>(x) * l.cam, 1e-6), "camera at ", k);
        } else { CHECK_THROWS(g.pose(k)); CHECK_THROWS(g.navstate(k)); CHECK_THROWS(g.value(x)); CHECK_THROWS(g.stereo_camera(k)); }
        if (l.values.exists(v)) CHECK((g.velocity(k) - l.values.at<gtsam::Velocity3>(v)).norm() == 0, "velocity ", k); else CHECK_THROWS(g.velocity(k));
        if (l.values.exists(b)) CHECK(g.imu_bias(k).equals(l.values.at<gtsam::imuBias::ConstantBias>(b), 1e-12), "bias ", k); else CHECK_THROWS(g.imu_bias(k));
        if (l.values.exists(p)) CHECK(g.barometer_bias(k) == l.values.at<double>(p), "pressure bias ", k); else CHECK_THROWS(g.barometer_bias(k));
        if (l.times.count(k)) CHECK(g.timestamp(k) == l.times[k], "timestamp ", k); else CHECK_THROWS(g.timestamp(k));
        if (l.values.exists(x) && l.values.exists(v)) CHECK(g.navstate(k).pose().equals(g.pose(k), 1e-9) && (g.navstate(k).velocity() - g.velocity(k)).norm() < 1e-12, "navigation state ", k);
        if (l.values.exists(x) && l.values.exists(v) && l.values.exists(b) && l.values.exists(p) && l.times.count(k)) {
            const auto st = g.state(k);
            CHECK(st.pose().equals(g.pose(k), 1e-12) && st.velocity() == g.velocity(k) && st.imu_bias().equals(g.imu_bias(k), 1e-12) && st.barometer_bias() == g.barometer_bias(k) && st.timestamp() == l.times[k] && st.navstate().pose().equals(g.pose(k), 1e-9), "state ", k);
            s.label("complete state");
        } else CHECK_THROWS(g.state(k));
        std::map<int, gtsam::Point3> here;
        if (l.landmarks.count(k)) for (int id : l.landmarks[k]) { here[id] = l.values.at<gtsam::Point3>(sym('s', id)); lm[id] = here[id]; }
        const auto got = g.stereo_landmarks(k);
        CHECK(got.size() == here.size(), "landmarks added at ", k);
        for (const auto& e : here) CHECK(got.count(e.first) && (got.at(e.first) - e.second).norm() <= 1e-6 * (1 + e.second.norm()), "landmark ", e.first);
        for (int c : {'x', 'v', 'b', 'p'}) {
            std::vector<FactorPtr> with;
            for (const auto& f : all) if (std::find(f->begin(), f->end(), sym(static_cast<char>(c), k)) != f->end()) with.push_back(f);
            same_factors(g.factors_for_key(sym(static_cast<char>(c), k)), with, "factors of a variable");
        }
        for (const auto& e : l.names) {
            const std::string& nm = e.first;
            const int off = k - e.second.first;
            const bool pose_at = l.values.exists(x), velocity_at = l.values.exists(v), bias_at = l.values.exists(b), pressure_at = l.values.exists(p), time_at = l.times.count(k) > 0;
            CHECK(g.key(nm, off) == k, "key by name and offset");
            CHECK(g.has_pose(nm, off) == pose_at, "has_pose by name and offset");
            if (pose_at) CHECK(g.pose(nm, off).equals(g.pose(k), 0) && g.stereo_camera(nm, off).pose().equals(g.stereo_camera(k).pose(), 0), "pose by name and offset");
            else CHECK_THROWS(g.pose(nm, off));
            if (velocity_at) CHECK(g.velocity(nm, off) == g.velocity(k), "velocity by name and offset");
            else CHECK_THROWS(g.velocity(nm, off));
            if (bias_at) CHECK(g.imu_bias(nm, off).equals(g.imu_bias(k), 0), "bias by name and offset");
            else CHECK_THROWS(g.imu_bias(nm, off));
            if (pressure_at) CHECK(g.barometer_bias(nm, off) == g.barometer_bias(k), "pressure bias by name and offset");
            else CHECK_THROWS(g.barometer_bias(nm, off));
            if (time_at) CHECK(g.timestamp(nm, off) == g.timestamp(k), "time by name and offset");
            else CHECK_THROWS(g.timestamp(nm, off));
            if (pose_at && velocity_at) CHECK(g.navstate(nm, off).equals(g.navstate(k), 0), "navigation state by name and offset");
            if (pose_at && velocity_at && bias_at && pressure_at && time_at) CHECK(g.state(nm, off).pose().equals(g.pose(k), 0) && g.state(nm, off).velocity() == g.velocity(k) && g.state(nm, off).imu_bias().equals(g.imu_bias(k), 0) &&
                g.state(nm, off).barometer_bias() == g.barometer_bias(k) && g.state(nm, off).timestamp() == g.timestamp(k), "state by name and offset");
            if (off != 0) continue;
            CHECK(g.key(nm) == k && g.has_pose(nm) == g.has_pose(k), "by name");
            if (pose_at) CHECK(g.pose(nm).equals(g.pose(k), 0) && g.stereo_camera(nm).pose().equals(g.stereo_camera(k).pose(), 0), "by name");
            if (velocity_at) CHECK(g.velocity(nm) == g.velocity(k), "by name");
            if (bias_at) CHECK(g.imu_bias(nm).equals(g.imu_bias(k), 0), "by name");
            if (time_at) CHECK(g.timestamp(nm) == g.timestamp(k), "by name");
            if (pose_at && velocity_at) CHECK(g.navstate(nm).equals(g.navstate(k), 0), "by name");
            if (pose_at && velocity_at && bias_at && pressure_at && time_at) CHECK(g.state(nm).pose().equals(g.pose(k), 0), "by name");
            if (time_at && l.times.count(k - 1)) {
                CHECK(g.time_between(nm, nm, -1) == l.times[k] - l.times[k - 1] && g.time_between(nm, nm, 0, -1) == l.times[k - 1] - l.times[k] &&
                      g.time_between(k, k - 1) == l.times[k - 1] - l.times[k], "time between");
            }
        }
    }
    const auto every = g.stereo_landmarks();
    CHECK(every.size() == lm.size(), "all landmarks");
    for (int id = 0; id <= 7; ++id) {
        CHECK(g.has_stereo_landmark(id) == l.values.exists(sym('s', id)) && (lm.count(id) > 0) == g.has_stereo_landmark(id), "has landmark ", id);
        if (lm.count(id)) CHECK((g.stereo_landmark(id) - lm[id]).norm() <= 1e-6 * (1 + lm[id].norm()) && every.count(id), "landmark ", id);
        else CHECK_THROWS(g.stereo_landmark(id));
    }
    for (unsigned p = 0; p < 4; ++p) {
        int m = std::numeric_limits<int>::max();
        bool any = false;
        for (const auto& e : l.names) if (e.second.second <= p) { m = std::min(m, e.second.first); any = true; }
        if (any) CHECK(g.minimum_key(p) == m, "smallest key of priority ", p); else CHECK_THROWS(g.minimum_key(p));
        if (any && p == 3) CHECK(g.minimum_key() == m, "smallest key");
    }
    s.nontrivial((kinds & 128) && __builtin_popcount(static_cast<unsigned>(kinds)) >= 3 && extractions > 0);
    s.note() << h;
}

PROPERTY(optimisation, 500, 10000, "at least two optimisations of a chain of three or more states") {
    gtsam::ISAM2Params ip;
    ip.relinearizeThreshold = s.pick({0.1, 0.01});
    ip.relinearizeSkip = 1;
    ip.setOptimizationParams(gtsam::ISAM2GaussNewtonParams(0.0));  // no early stop: it would depend on rounding
    serpent::ISAM2GraphManager g(ip);
    gtsam::ISAM2 ref(ip);
    Ledger l;
    CHECK(g.opt_key() == -1 && g.marginalisation_key() == -1, "nothing optimised yet");
    const bool stereo = s.boolean(), imu = s.boolean(), baro = s.boolean();
    l.cam = pose(s, 0.5);
    l.K = boost::make_shared<gtsam::Cal3_S2Stereo>(400, 400, 0.0, 320, 240, 0.2);
    l.stereo_noise = gtsam::noiseModel::Isotropic::Sigma(3, 1.0);
    g.set_body_to_stereo_left_cam_pose(l.cam);
    g.set_stereo_calibration(l.K);
    g.set_stereo_noise_model(l.stereo_noise);
    static const auto params = imu_params();
    const int n = static_cast<int>(s.integer(2, 7));
    int opts = 0, next_id = 0, stereo_sets = 0;
    Features last;
    std::map<int, gtsam::Point3> world;
    gtsam::NavState truth(gtsam::Pose3(gtsam::Rot3(gen::rotation(s, false)), gtsam::Point3(0, 0, 0)), v3(s, 1));
    for (int k = 0; k < n; ++k) {
        // a smooth motion; measurements and initial values agree with it up to small errors
        const gtsam::imuBias::ConstantBias bias;
        gtsam::PreintegratedCombinedMeasurements pim(params, bias);
        for (int i = 0; i < 5; ++i) pim.integrateMeasurement(truth.attitude().unrotate(gtsam::Vector3(0, 0, 9.81)) + v3(s, 0.5), v3(s, 0.5), 0.05);
        const gtsam::NavState before = truth;
        if (k > 0) truth = pim.predict(truth, bias);
        const gtsam::Pose3 rel = before.pose().inverse() * truth.pose() * gtsam::Pose3(gtsam::Rot3::Expmap(v3(s, 0.005)), gtsam::Point3(v3(s, 0.02)));
        const gtsam::Pose3 x = truth.pose() * gtsam::Pose3(gtsam::Rot3::Expmap(v3(s, 0.01)), gtsam::Point3(v3(s, 0.05)));
        g.set_pose(k, x); l.put(sym('x', k), x);
        g.set_timestamp(k, at(k)); l.times[k] = at(k);
        const gtsam::Velocity3 vel = truth.velocity() + v3(s, 0.05);
        g.set_velocity(k, vel); l.put(sym('v', k), vel);
        g.set_imu_bias(k, bias); l.put(sym('b', k), bias);
        const auto n6 = gtsam::noiseModel::Isotropic::Sigma(6, 0.1), n3 = gtsam::noiseModel::Isotropic::Sigma(3, 0.2), n1 = gtsam::noiseModel::Isotropic::Sigma(1, 0.5);
        if (k == 0) { g.create_prior_pose_factor(0, x, n6); l.add(0, boost::make_shared<gtsam::PriorFactor<gtsam::Pose3>>(sym('x', 0), x, n6)); }
        else { g.create_between_pose_factor(k, rel, n6); l.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(sym('x', k - 1), sym('x', k), rel, n6)); }
        if (!imu || k == 0) {
            g.create_prior_velocity_factor(k, vel, n3); l.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Velocity3>>(sym('v', k), vel, n3));
            g.create_prior_imu_bias_factor(k, bias, n6); l.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::imuBias::ConstantBias>>(sym('b', k), bias, n6));
        } else {
            g.create_combined_imu_factor(k, pim);
            l.add(k, boost::make_shared<gtsam::CombinedImuFactor>(sym('x', k - 1), sym('v', k - 1), sym('x', k), sym('v', k), sym('b', k - 1), sym('b', k), pim));
        }
        if (baro) {
            g.set_barometer_bias(k, 0.0); l.put(sym('p', k), 0.0);
            if (k == 0) { g.create_prior_barometer_bias_factor(0, 0.0, n1); l.add(0, boost::make_shared<gtsam::PriorFactor<double>>(sym('p', 0), 0.0, n1)); }
            else { g.create_barometric_bias_factor(k, n1); l.add(k, boost::make_shared<gtsam::BetweenFactor<double>>(sym('p', k - 1), sym('p', k), 0.0, n1)); }
            const double kpa = 101.29 * std::pow((288.14 - 0.00649 * truth.position().z()) / 288.08, 5.256) + s.uniform(-0.002, 0.002);
            g.create_barometric_factor(k, kpa, n1); l.add(k, boost::make_shared<gtsam::BarometricFactor>(sym('x', k), sym('p', k), kpa, n1));
        }
        if (stereo && (stereo_sets == 0 || s.chance(3, 4))) {
            Features f;
            const gtsam::Pose3 cam = truth.pose() * l.cam;
            for (const auto& e : last) if (s.chance(4, 5)) {
                const gtsam::Point3 q = cam.transformTo(world.at(e.first));
                if (q.z() < 2.0) continue;
                const double ul = 320 + 400 * q.x() / q.z(), disp = 400 * 0.2 / q.z();
                f[e.first] = gtsam::StereoPoint2(ul + s.uniform(-0.3, 0.3), ul - disp + s.uniform(-0.3, 0.3), 240 + 400 * q.y() / q.z() + s.uniform(-0.3, 0.3));
            }
            for (int i = 0; i < 4; ++i) {
                const double z = s.uniform(4, 12);
                const gtsam::Point3 q(z * s.uniform(-0.6, 0.6), z * s.uniform(-0.4, 0.4), z);
                world[next_id] = cam.transformFrom(q);
                const double ul = 320 + 400 * q.x() / z;
                f[next_id++] = gtsam::StereoPoint2(ul, ul - 400 * 0.2 / z, 240 + 400 * q.y() / z);
            }
            CHECK(l.observe(k, f), "fresh ids");
            g.create_stereo_factors_and_values(k, f);
            last = f;
            ++stereo_sets;
        }
        const bool last_step = k == n - 1;
        if (last_step || s.chance(2, 3)) {
            gtsam::NonlinearFactorGraph nf;
            for (const auto& f : l.take_factors(k)) nf.push_back(f);
            const gtsam::Values nv = l.take_values(k);
            bool solvable = true;
            try { ref.update(nf, nv); } catch (const std::exception&) { solvable = false; }
            if (!solvable) { CHECK_THROWS(g.optimise(k), "the same system cannot be solved"); s.label("not solvable"); return; }
            l.values.update(ref.calculateEstimate());
            g.optimise(k);
            ++opts;
            CHECK(g.opt_key() == k, "optimised key");
            same_values(g.values(), l.values, "estimate after optimising key " + std::to_string(k), 1e-4);
            CHECK((g.pose_covariance(k) - ref.marginalCovariance(sym('x', k))).cwiseAbs().maxCoeff() < 1e-6 && (g.covariance(sym('x', k)) - ref.marginalCovariance(sym('x', k))).cwiseAbs().maxCoeff() < 1e-6, "pose covariance");
            CHECK((g.velocity_covariance(k) - ref.marginalCovariance(sym('v', k))).cwiseAbs().maxCoeff() < 1e-6, "velocity covariance");
            CHECK((g.imu_bias_covariance(k) - ref.marginalCovariance(sym('b', k))).cwiseAbs().maxCoeff() < 1e-6, "bias covariance");
            if (baro) CHECK(std::abs(g.barometer_bias_variance(k)(0, 0) - ref.marginalCovariance(sym('p', k))(0, 0)) < 1e-6, "pressure bias variance");
        }
    }
    if (stereo_sets > 1) s.label("stereo");
    if (imu) s.label("imu");
    CHECK_THROWS(g.marginalise(n + 3), "beyond the optimised keys");
    s.nontrivial(opts >= 2 && n >= 3);
    s.note() << n << " states " << opts << " optimisations" << (imu ? " imu" : "") << (stereo ? " stereo" : "") << (baro ? " barometer" : "");
}
