// P21: the optimisation back end over generated measurement histories and arrival orders, against a second optimiser fed
// from a ledger, and against the true trajectory when the measurements are exact.
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <sensor_msgs/FluidPressure.h>
#include <serpent/ImuArray.h>
#include <serpent/ImuBiases.h>
#include <serpent/StereoFeatures.h>
#include <serpent/back_end/optimisation.hpp>

#include "mutex_use.hpp"
#include "baton.hpp"
#include "ledger.hpp"

namespace {
using namespace ledger;
typedef XmlRpc::XmlRpcValue X;
typedef gtsam::PreintegratedCombinedMeasurements Pim;
typedef gtsam::noiseModel::mEstimator::Base Robust;
using gen::Matrix6d;
const std::string ns = "/serpent/";
const int64_t ms = 1000000;
ros::Time stamp(int64_t t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(t)); return r; }
template<typename V> void put(V& v, const Eigen::Vector3d& x) { v.x = x[0]; v.y = x[1]; v.z = x[2]; }
void put(geometry_msgs::Quaternion& q, const Eigen::Quaterniond& x) { q.w = x.w(); q.x = x.x(); q.y = x.y(); q.z = x.z(); }
template<typename V> Eigen::Vector3d vec(const V& v) { return {v.x, v.y, v.z}; }
Eigen::Matrix3d rot(const geometry_msgs::Quaternion& q) { return Eigen::Quaterniond(q.w, q.x, q.y, q.z).normalized().toRotationMatrix(); }
// ROS orders a pose covariance (translation, rotation); the optimiser orders it (rotation, translation)
Matrix6d swap(const Matrix6d& c) { Matrix6d r; r << c.bottomRightCorner<3, 3>(), c.bottomLeftCorner<3, 3>(), c.topRightCorner<3, 3>(), c.topLeftCorner<3, 3>(); return r; }
Matrix6d covariance(pbt::Src& s, double lo, double hi) {
    Matrix6d A;
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) A(r, c) = r == c ? 1.0 : s.chance(1, 3) ? s.uniform(-0.4, 0.4) : 0.0;
    gen::Vector6d d;
    for (int i = 0; i < 6; ++i) d[i] = s.uniform(lo, hi);
    const Matrix6d C = d.asDiagonal() * A * A.transpose() * d.asDiagonal();
    return 0.5 * (C + C.transpose());
}

struct ImuM { int64_t t; Eigen::Vector3d w, a; };
struct Feats { int64_t t; Features f; };
struct Stop {};  // the system cannot be solved
struct Busy { int kind; std::size_t i; bool done{false}; int next{0}; baton::Task* task{nullptr}; std::string what; };
struct State { int key; int64_t t; gtsam::Pose3 x; gtsam::Velocity3 v; gtsam::imuBias::ConstantBias b; std::vector<gtsam::Pose3> path; Matrix6d cov; std::vector<gtsam::Point3> points; };

struct World {
    pbt::Src& s;
    // settings
    std::map<std::string, Eigen::Isometry3d> frames;
    std::map<std::string, std::string> ids;
    std::string body, map{"map"}, cam_name{"stereo"};
    bool imu{true}, reg{true}, stereo{true}, baro{true}, points{false}, exact{true};
    double gravity{9.81}, ni{1e-3}, nib{1e-3}, nab{1e-3}, ngb{1e-3}, pab{1e-3}, pgb{1e-3}, ppb{1e-6}, npb{1e-6};
    gtsam::ISAM2Params ip;
    // data
    int n{0};
    std::vector<int64_t> t;
    std::vector<gtsam::NavState> truth;
    std::vector<ImuM> stream;
    std::vector<Eigen::Vector2d> imu_noise;   // (gyroscope, accelerometer) variances of the block ending at each state
    std::vector<gtsam::Pose3> rel;
    std::vector<Matrix6d> rel_cov;            // optimiser order
    std::vector<Feats> feats;
    std::vector<std::tuple<int, double, double>> pressures;  // state, kPa, variance
    Matrix6d prior_cov;
    Eigen::Matrix3d vel_cov;
    double fx, fy, cx, cy, baseline, height0;
    // reference
    Ledger l;
    std::unique_ptr<gtsam::ISAM2> ref;
    std::map<std::string, int> key;
    int opt{-1};
    std::string why;
    bool unsolvable{false}, nested{false}, waited{false}, skipped{false}, ignored{false};
    std::vector<State> states;
    std::vector<Eigen::Matrix4d> transforms;
    // progress
    std::size_t in[4]{0, 0, 0, 0};  // next IMU block, transform, features, pressure
    std::vector<Busy> busy;         // messages being processed

    explicit World(pbt::Src& s) : s(s) {}
    // poses held by image features alone, and features whose robust weight vanishes, can be near-singular: whether rounding
    // leaves the system solvable is not decided here
    bool vanishing{false};
    bool fragile() const { return stereo && (vanishing || (!imu && !reg)); }
    gtsam::Pose3 cam() const { return gtsam::Pose3(frames.at(cam_name).matrix()); }
    boost::shared_ptr<Pim::Params> params(double gyro, double acc) const {
        auto p = Pim::Params::MakeSharedU(gravity);
        p->accelerometerCovariance = acc * Eigen::Matrix3d::Identity();
        p->gyroscopeCovariance = gyro * Eigen::Matrix3d::Identity();
        p->integrationCovariance = ni * ni * Eigen::Matrix3d::Identity();
        p->biasAccCovariance = nab * nab * Eigen::Matrix3d::Identity();
        p->biasOmegaCovariance = ngb * ngb * Eigen::Matrix3d::Identity();
        p->biasAccOmegaInt = nib * nib * Eigen::Matrix<double, 6, 6>::Identity();
        p->body_P_sensor = gtsam::Pose3(frames.at("imu").matrix());
        return p;
    }
    // every measurement is held until the next one
    void integrate(Pim& pim, int k) const {
        for (std::size_t i = 0; i < stream.size(); ++i) {
            const int64_t a = std::max(t[k - 1], stream[i].t), b = i + 1 < stream.size() ? std::min(t[k], stream[i + 1].t) : t[k];
            if (b > a) pim.integrateMeasurement(stream[i].a, stream[i].w, 1e-9 * static_cast<double>(b - a));
        }
    }
    int smallest() const { int m = key.at("imu"); if (reg) m = std::min(m, key.at("reg")); if (stereo) m = std::min(m, key.at("stereo")); return m; }
    gtsam::Pose3 x(int k) const { return l.values.at<gtsam::Pose3>(sym('x', k)); }
    gtsam::Velocity3 v(int k) const { return l.values.at<gtsam::Velocity3>(sym('v', k)); }
    gtsam::imuBias::ConstantBias b(int k) const { return l.values.at<gtsam::imuBias::ConstantBias>(sym('b', k)); }

    void optimise(int k) {
        gtsam::NonlinearFactorGraph nf;
        for (const auto& f : l.take_factors(k)) nf.push_back(f);
        try { ref->update(nf, l.take_values(k)); l.values.update(ref->calculateEstimate()); } catch (const std::exception& e) { unsolvable = true; why = e.what(); return; }
        opt = k;
        if (fragile()) for (int j = 0; j <= k; ++j) if ((x(j).translation() - truth[static_cast<std::size_t>(j)].position()).norm() > 0.5) { unsolvable = true; why = "diverged"; }
    }
    void publish(int k) {
        State st;
        st.key = k; st.t = t[k]; st.x = x(k); st.v = v(k); st.b = b(k);
        for (int j = 0; j <= k; ++j) st.path.push_back(x(j));
        if (!stereo) st.cov = ref->marginalCovariance(sym('x', k));
        for (const auto& e : l.landmarks) for (int id : e.second) st.points.push_back(l.values.at<gtsam::Point3>(sym('s', id)));
        states.push_back(st);
    }
    void optimise_moved(int k) {
        optimise(k);
        if (unsolvable) return;
        if (!imu) l.put(sym('v', k), gtsam::Velocity3((x(k).translation() - x(k - 1).translation()) / (stamp(t[k]) - stamp(t[k - 1])).toSec()));
        publish(k);
    }
    void initial() {
        l.put(sym('b', 0), gtsam::imuBias::ConstantBias());
        l.put(sym('x', 0), truth[0].pose());
        l.put(sym('v', 0), gtsam::Velocity3(truth[0].velocity()));
        l.add(0, boost::make_shared<gtsam::PriorFactor<gtsam::Pose3>>(sym('x', 0), truth[0].pose(), gtsam::noiseModel::Gaussian::Covariance(prior_cov)));
        if (imu) {
            l.add(0, boost::make_shared<gtsam::PriorFactor<gtsam::Velocity3>>(sym('v', 0), gtsam::Velocity3(truth[0].velocity()), gtsam::noiseModel::Gaussian::Covariance(vel_cov)));
            gtsam::Vector6 sg; sg << pab, pab, pab, pgb, pgb, pgb;
            l.add(0, boost::make_shared<gtsam::PriorFactor<gtsam::imuBias::ConstantBias>>(sym('b', 0), gtsam::imuBias::ConstantBias(), gtsam::noiseModel::Diagonal::Sigmas(sg)));
        }
        transforms.push_back(Eigen::Matrix4d::Identity());
        optimise(0);
        if (!unsolvable) publish(0);
    }
    // Processes as much of the message as the data present allow.
    void advance(Busy& m) {
        if (m.kind == 0) {
            const int k = key["imu"] + 1;
            if (opt != k - 1) return;
            Pim pim(params(imu_noise[k][0], imu_noise[k][1]), b(k - 1));
            integrate(pim, k);
            key["imu"] = k;
            const gtsam::NavState p = pim.predict(gtsam::NavState(x(k - 1), v(k - 1)), b(k - 1));
            l.put(sym('b', k), b(k - 1)); l.put(sym('x', k), p.pose()); l.put(sym('v', k), gtsam::Velocity3(p.velocity()));
            const Eigen::Matrix4d L = frames.at("lidar").matrix();
            transforms.push_back(gen::inverse4(L) * (x(k - 1).inverse() * p.pose()).matrix() * L);
            if (imu) {
                l.add(k, boost::make_shared<gtsam::CombinedImuFactor>(sym('x', k - 1), sym('v', k - 1), sym('x', k), sym('v', k), sym('b', k - 1), sym('b', k), pim));
                if (smallest() == k) { optimise(k); if (!unsolvable) publish(k); }
            }
        } else if (m.kind == 1) {
            const int k = ++key["reg"];
            l.put(sym('x', k), x(k - 1) * rel[k]);
            l.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(sym('x', k - 1), sym('x', k), rel[k], gtsam::noiseModel::Gaussian::Covariance(rel_cov[k])));
            if (smallest() == k) optimise_moved(k);
        } else if (m.kind == 2) {
            const Feats& f = feats[m.i];
            while (true) {
                const int k = key["stereo"] + 1;
                if (!l.values.exists(sym('x', k))) return;
                if (f.t < t[k]) { ignored = true; break; }
                key["stereo"] = k;
                if (f.t == t[k]) { if (!l.observe(k, f.f)) throw std::logic_error("the generator reused a feature id"); } else skipped = true;
                if (k > 0 && smallest() == k) optimise_moved(k);
                if (unsolvable || f.t == t[k]) break;
            }
        } else {
            const int k = std::get<0>(pressures[m.i]);
            int& key_b = key["barometer"];
            while (l.values.exists(sym('x', key_b)) && t[key_b] < t[k]) ++key_b;
            if (!l.values.exists(sym('x', key_b)) || t[key_b] < t[k]) return;
            const double kpa = std::get<1>(pressures[m.i]);
            const auto n1 = gtsam::noiseModel::Isotropic::Variance(1, std::get<2>(pressures[m.i]));
            l.add(k, boost::make_shared<gtsam::BarometricFactor>(sym('x', k), sym('p', k), kpa, n1));
            if (m.next == 0) {
                const double bias = (288.14 - 288.08 * std::pow(kpa / 101.29, 1.0 / 5.256)) / 0.00649 - x(k).z();
                l.put(sym('p', 0), bias);
                l.add(k, boost::make_shared<gtsam::PriorFactor<double>>(sym('p', k), bias, gtsam::noiseModel::Isotropic::Sigma(1, ppb)));
            }
            for (int j = std::max(1, m.next); j <= k; ++j) {
                l.add(j, boost::make_shared<gtsam::BetweenFactor<double>>(sym('p', j - 1), sym('p', j), 0.0, gtsam::noiseModel::Isotropic::Sigma(1, npb)));
                l.put(sym('p', j), l.values.at<double>(sym('p', j - 1)));
            }
            key_b = k + 1;
        }
        m.done = true;
    }
};

template<typename T> void set(World& w, const std::string& name, T& v, T x) { if (w.s.boolean()) { v = x; shim::set_param(ns + name, x); } }

void configure(World& w) {
    pbt::Src& s = w.s;
    shim::bus().reset();
    // frames
    w.cam_name = s.chance(1, 3) ? "left_cam" : "stereo";
    if (w.cam_name != "stereo") shim::set_param(ns + "stereo_factors/left_cam_frame", w.cam_name);
    const std::vector<std::string> names{"imu", "lidar", w.cam_name, "base_link"};
    w.body = names[s.draw(3)];
    X node; node["unused"] = 1;
    X children;
    for (const auto& n : names) {
        w.ids[n] = s.boolean() ? n : "robot/" + n;
        if (n == w.body) { w.frames[n] = Eigen::Isometry3d::Identity(); if (w.ids[n] != n) node["frame_id"] = w.ids[n]; continue; }
        const Eigen::Isometry3d T = gen::isometry(s, 0.5);
        w.frames[n] = T;
        X f;
        if (w.ids[n] != n) f["frame_id"] = w.ids[n];
        f["translation"]["x"] = T.translation()[0]; f["translation"]["y"] = T.translation()[1]; f["translation"]["z"] = T.translation()[2];
        const Eigen::Quaterniond q(T.rotation());
        f["rotation"]["w"] = q.w(); f["rotation"]["x"] = q.x(); f["rotation"]["y"] = q.y(); f["rotation"]["z"] = q.z();
        children[n] = f;
    }
    node["frames"] = children;
    X top; top[w.body] = node;
    shim::set_param(ns + "body_frames", top);
    // factors
    const auto which = s.draw(11);
    w.imu = which < 8; w.reg = which < 4 || which == 8 || which == 9; w.stereo = which == 2 || which == 3 || which == 6 || which == 7 || which >= 9;
    w.baro = s.boolean();
    for (const auto& e : std::map<std::string, bool>{{"imu", w.imu}, {"registration", w.reg}, {"stereo", w.stereo}, {"barometer", w.baro}})
        if (!e.second || s.boolean()) shim::set_param(ns + "optimisation/factors/" + e.first, e.second);
    set(w, "debug/optimisation/publish_stereo_points", w.points, true);
    shim::set_param(ns + "debug/optimisation/on_crash/print", false);
    set(w, "map_frame_id", w.map, std::string("world"));
    set(w, "gravity", w.gravity, s.uniform(9.7, 9.9));
    set(w, "imu/noise/integration", w.ni, s.uniform(1e-3, 1e-2));
    set(w, "imu/noise/integration_bias", w.nib, s.uniform(1e-3, 1e-2));
    set(w, "imu/noise/accelerometer_bias", w.nab, s.uniform(1e-3, 1e-2));
    set(w, "imu/noise/gyroscope_bias", w.ngb, s.uniform(1e-3, 1e-2));
    set(w, "prior_noise/accelerometer_bias", w.pab, s.uniform(1e-3, 1e-1));
    set(w, "prior_noise/gyroscope_bias", w.pgb, s.uniform(1e-3, 1e-1));
    w.ppb = s.uniform(1e-2, 1.0); shim::set_param(ns + "prior_noise/barometer_bias", w.ppb);
    w.npb = s.uniform(1e-2, 1.0); shim::set_param(ns + "barometer/noise/barometer_bias", w.npb);
    // optimiser; no early stop, which would depend on rounding
    if (s.chance(1, 5)) {
        gtsam::ISAM2DoglegParams p;
        shim::set_param(ns + "isam2/optimization", std::string("Dogleg"));
        p.wildfireThreshold = 0.0; shim::set_param(ns + "isam2/dogleg_params/wildfire_threshold", 0.0);
        p.initialDelta = 1.0;
        if (s.boolean()) { p.initialDelta = s.uniform(0.5, 5); shim::set_param(ns + "isam2/dogleg_params/initial_delta", p.initialDelta); }
        if (s.boolean()) { p.setAdaptationMode("ONE_STEP_PER_ITERATION"); shim::set_param(ns + "isam2/dogleg_params/trust_region_adaptation_mode", std::string("ONE_STEP_PER_ITERATION")); }
        w.ip.setOptimizationParams(p);
        s.label("Dogleg");
    } else {
        w.ip.setOptimizationParams(gtsam::ISAM2GaussNewtonParams(0.0));
        shim::set_param(ns + "isam2/gauss_newton_params/wildfire_threshold", 0.0);
        if (s.boolean()) shim::set_param(ns + "isam2/optimization", std::string("GaussNewton"));
    }
    double th = 0.1;
    set(w, "isam2/relinearize_threshold", th, s.pick({0.01, 0.5}));
    w.ip.setRelinearizeThreshold(th);
    w.ip.relinearizeSkip = 10;
    set(w, "isam2/relinearize_skip", w.ip.relinearizeSkip, static_cast<int>(s.integer(1, 3)));
    std::string fz = "CHOLESKY";
    set(w, "isam2/factorization", fz, std::string("QR"));
    w.ip.setFactorization(fz);
    set(w, "isam2/enable_relinearization", w.ip.enableRelinearization, false);
    set(w, "isam2/evaluate_nonlinear_error", w.ip.evaluateNonlinearError, true);
    set(w, "isam2/cache_linearized_factors", w.ip.cacheLinearizedFactors, false);
    w.ref = std::make_unique<gtsam::ISAM2>(w.ip);
    // stereo noise
    double l = 5, r = 5, y = 10;
    set(w, "stereo_factors/noise/left_x", l, s.uniform(0.5, 5));
    set(w, "stereo_factors/noise/right_x", r, s.uniform(0.5, 5));
    set(w, "stereo_factors/noise/y", y, s.uniform(0.5, 5));
    const auto base = gtsam::noiseModel::Diagonal::Sigmas(gtsam::Vector3(l, r, y));
    w.l.stereo_noise = base;
    const bool robust = s.chance(3, 4);
    if (!robust || s.boolean()) shim::set_param(ns + "stereo_factors/robust/enabled", robust);
    if (robust) {
        static const std::vector<std::pair<std::string, double>> types{{"huber", 1.345}, {"cauchy", 0.1}, {"dcs", 1.0}, {"fair", 1.3998}, {"geman_mcclure", 1.0}, {"l2_with_dead_zone", 1.0}, {"null", 0}, {"tukey", 4.6851}, {"welsch", 2.9846}};
        const auto type = s.boolean() ? types[0] : s.pick(types);
        double c = type.second;
        bool scalar = false;
        if (type.first != "huber" || s.boolean()) shim::set_param(ns + "stereo_factors/robust/type", type.first);
        const bool k = type.first == "huber" || type.first == "cauchy" || type.first == "l2_with_dead_zone";
        if (type.first != "null") {
            set(w, "stereo_factors/robust/" + type.first + (k ? "/k" : "/c"), c, s.uniform(0.5, 5));
            if (s.boolean()) { scalar = s.boolean(); shim::set_param(ns + "stereo_factors/robust/" + type.first + "/reweight_scheme", std::string(scalar ? "SCALAR" : "BLOCK")); }
        }
        const Robust::ReweightScheme sc = scalar ? Robust::Scalar : Robust::Block;
        namespace M = gtsam::noiseModel::mEstimator;
        Robust::shared_ptr e;
        w.vanishing = type.first == "dcs" || type.first == "geman_mcclure" || type.first == "l2_with_dead_zone" || type.first == "tukey" || type.first == "welsch";
        if (type.first == "huber") e = M::Huber::Create(c, sc);
        if (type.first == "cauchy") e = M::Cauchy::Create(c, sc);
        if (type.first == "dcs") e = M::DCS::Create(c, sc);
        if (type.first == "fair") e = M::Fair::Create(c, sc);
        if (type.first == "geman_mcclure") e = M::GemanMcClure::Create(c, sc);
        if (type.first == "l2_with_dead_zone") e = M::L2WithDeadZone::Create(c, sc);
        if (type.first == "null") e = M::Null::Create();
        if (type.first == "tukey") e = M::Tukey::Create(c, sc);
        if (type.first == "welsch") e = M::Welsch::Create(c, sc);
        w.l.stereo_noise = gtsam::noiseModel::Robust::Create(e, base);
        if (w.stereo) s.label("robust " + type.first);
    }
    w.l.cam = w.cam();
    w.fx = s.uniform(300, 500); w.fy = s.uniform(300, 500); w.cx = s.uniform(300, 340); w.cy = s.uniform(200, 260); w.baseline = s.uniform(0.1, 0.5);
    w.l.K = boost::make_shared<gtsam::Cal3_S2Stereo>(w.fx, w.fy, 0.0, w.cx, w.cy, w.baseline);
    w.key["imu"] = 0; w.key["reg"] = 0; w.key["stereo"] = -1; w.key["barometer"] = 0;
}

void generate(World& w) {
    pbt::Src& s = w.s;
    w.exact = s.boolean();
    const double e = w.exact ? 0.0 : 1.0;
    w.n = static_cast<int>(s.size(2, 8));
    w.t.push_back(1600000000LL * 1000000000LL + static_cast<int64_t>(s.draw(1000000000)));
    for (int k = 1; k < w.n; ++k) w.t.push_back(w.t.back() + 80 * ms + static_cast<int64_t>(s.draw(100 * ms)));
    w.truth.push_back(gtsam::NavState(gtsam::Pose3(gtsam::Rot3(gen::rotation(s, false)), gtsam::Point3(gen::vec3(s, 10))), gtsam::Velocity3(gen::vec3(s, 1))));
    w.prior_cov = covariance(s, 0.01, 0.2);
    w.vel_cov = Eigen::Vector3d(s.uniform(1e-4, 1e-2), s.uniform(1e-4, 1e-2), s.uniform(1e-4, 1e-2)).asDiagonal();
    w.rel.resize(1); w.rel_cov.resize(1); w.imu_noise.resize(1);
    int64_t u = w.t[0] - static_cast<int64_t>(s.draw(10 * ms));
    const gtsam::Rot3 sensor(w.frames.at("imu").rotation());
    const gtsam::imuBias::ConstantBias zero;
    for (int k = 1; k < w.n; ++k) {
        // measurements up to the next state; the last one is held across it
        const gtsam::Vector3 up = w.truth[k - 1].attitude().unrotate(gtsam::Vector3(0, 0, w.gravity));
        while (u < w.t[k]) {
            w.stream.push_back({u, gen::vec3(s, 0.5), sensor.unrotate(up) + gen::vec3(s, 1.0)});
            const int64_t step = ms + static_cast<int64_t>(s.draw(20 * ms));
            if (u + step > w.t[k] && s.chance(1, 3)) u = std::max(u + 1, w.t[k]); else u += step;
        }
        w.imu_noise.push_back(Eigen::Vector2d(s.uniform(1e-5, 1e-3), s.uniform(1e-4, 1e-2)));
        Pim pim(w.params(1e-4, 1e-4), zero);
        w.integrate(pim, k);
        w.truth.push_back(pim.predict(w.truth[k - 1], zero));
        w.rel.push_back(w.truth[k - 1].pose().inverse() * w.truth[k].pose() * gtsam::Pose3(gtsam::Rot3::Expmap(e * gen::vec3(s, 0.005)), gtsam::Point3(e * gen::vec3(s, 0.02))));
        w.rel_cov.push_back(covariance(s, 0.01, 0.2));
    }
    if (w.stereo) {
        Features last;
        std::map<int, gtsam::Point3> world;
        int next = static_cast<int>(s.draw(5));
        const int fresh = w.imu || w.reg ? 3 : 10;
        for (int k = 0; k < w.n; ++k) {
            if (k > 0 && s.chance(1, 4)) {  // frames that are not at a state
                Feats x{w.t[k - 1] + 1 + static_cast<int64_t>(s.draw(static_cast<uint64_t>(w.t[k] - w.t[k - 1] - 2))), last};
                w.feats.push_back(x);
            }
            if (s.chance(1, w.imu || w.reg ? 6 : 20)) continue;
            Feats x{w.t[k], {}};
            const gtsam::Pose3 cam = w.truth[k].pose() * w.cam();
            auto seen = [&](const gtsam::Point3& q) {
                const double ul = w.cx + w.fx * q.x() / q.z();
                return gtsam::StereoPoint2(ul + e * s.uniform(-0.3, 0.3), ul - w.fx * w.baseline / q.z() + e * s.uniform(-0.3, 0.3), w.cy + w.fy * q.y() / q.z() + e * s.uniform(-0.3, 0.3));
            };
            for (const auto& f : last) {
                const gtsam::Point3 q = cam.transformTo(world.at(f.first));
                if (q.z() > 2.0 && s.chance(6, 7)) x.f[f.first] = seen(q);
            }
            for (int i = 0; i < fresh; ++i) {
                const double z = s.uniform(4, 12);
                const gtsam::Point3 q(z * s.uniform(-0.6, 0.6), z * s.uniform(-0.4, 0.4), z);
                world[next] = cam.transformFrom(q);
                x.f[next++] = seen(q);
            }
            last = x.f;
            w.feats.push_back(x);
        }
        if (s.chance(1, 5)) w.feats.push_back({w.t.back() + ms, last});
    }
    w.height0 = s.uniform(-50, 50);
    if (w.baro)
        for (int k = 0; k < w.n; ++k)
            if (!s.chance(1, 6)) w.pressures.emplace_back(k, 101.29 * std::pow((288.14 - 0.00649 * (w.truth[k].position().z() + w.height0)) / 288.08, 5.256) + e * s.uniform(-0.002, 0.002), s.uniform(0.1, 2));
}

std::unique_ptr<serpent::Optimisation> make() {
    std::ostringstream os;
    auto* old = std::cout.rdbuf(os.rdbuf());
    struct Restore { std::streambuf* b; ~Restore() { std::cout.rdbuf(b); } } r{old};
    return std::make_unique<serpent::Optimisation>();
}

// ---- messages
template<typename A> void fill(A& a, const Matrix6d& c) { for (int r = 0; r < 6; ++r) for (int q = 0; q < 6; ++q) a[static_cast<std::size_t>(6 * r + q)] = c(r, q); }
nav_msgs::Odometry initial_message(const World& w) {
    nav_msgs::Odometry m;
    m.header.stamp = stamp(w.t[0]); m.header.frame_id = w.map; m.child_frame_id = w.ids.at(w.body);
    put(m.pose.pose.position, w.truth[0].position()); put(m.pose.pose.orientation, Eigen::Quaterniond(w.truth[0].attitude().matrix()));
    put(m.twist.twist.linear, w.truth[0].velocity());
    fill(m.pose.covariance, swap(w.prior_cov));
    Matrix6d c = Matrix6d::Identity() * 0.3;
    c.topLeftCorner<3, 3>() = w.vel_cov;
    fill(m.twist.covariance, c);
    return m;
}
serpent::ImuArray imu_message(const World& w, int k) {
    serpent::ImuArray m;
    m.start_timestamp = stamp(w.t[k - 1]); m.end_timestamp = stamp(w.t[k]);
    for (std::size_t i = 0; i < w.stream.size(); ++i) {
        const bool last = i + 1 == w.stream.size();
        if (w.stream[i].t >= w.t[k] || (w.stream[i].t < w.t[k - 1] && !last && w.stream[i + 1].t <= w.t[k - 1])) continue;
        sensor_msgs::Imu x;
        x.header.stamp = stamp(w.stream[i].t); x.header.frame_id = w.ids.at("imu");
        x.orientation.w = 1;
        put(x.angular_velocity, w.stream[i].w); put(x.linear_acceleration, w.stream[i].a);
        for (int d = 0; d < 3; ++d) {
            x.orientation_covariance[static_cast<std::size_t>(4 * d)] = 0.01;
            // the noise of the first measurement is used for the block
            x.angular_velocity_covariance[static_cast<std::size_t>(4 * d)] = w.imu_noise[k][0];
            x.linear_acceleration_covariance[static_cast<std::size_t>(4 * d)] = w.imu_noise[k][1];
        }
        m.measurements.push_back(x);
    }
    return m;
}
geometry_msgs::PoseWithCovarianceStamped reg_message(const World& w, int k) {
    geometry_msgs::PoseWithCovarianceStamped m;
    m.header.stamp = stamp(w.t[k]); m.header.frame_id = w.ids.at(w.body);
    put(m.pose.pose.position, w.rel[k].translation()); put(m.pose.pose.orientation, Eigen::Quaterniond(w.rel[k].rotation().matrix()));
    fill(m.pose.covariance, swap(w.rel_cov[k]));
    return m;
}
serpent::StereoFeatures stereo_message(World& w, const Feats& f) {
    serpent::StereoFeatures m;
    m.header.stamp = stamp(f.t);
    for (const auto& e : f.f) {
        serpent::StereoFeature x;
        const double d = w.s.uniform(-1, 1);
        x.id = e.first; x.left_x = e.second.uL(); x.right_x = e.second.uR(); x.left_y = e.second.v() + d; x.right_y = e.second.v() - d;
        m.features.push_back(x);
    }
    m.left_info.K[0] = w.fx; m.left_info.K[2] = w.cx; m.left_info.K[4] = w.fy; m.left_info.K[5] = w.cy; m.left_info.K[8] = 1;
    m.right_info.K = m.left_info.K;
    m.right_info.P[0] = w.fx; m.right_info.P[5] = w.fy; m.right_info.P[10] = 1; m.right_info.P[3] = -w.fx * w.baseline;
    m.left_info.P = m.right_info.P; m.left_info.P[3] = 0;
    return m;
}
sensor_msgs::FluidPressure pressure_message(const World& w, std::size_t i) {
    sensor_msgs::FluidPressure m;
    m.header.stamp = stamp(w.t[std::get<0>(w.pressures[i])]); m.fluid_pressure = std::get<1>(w.pressures[i]) * 1e3; m.variance = std::get<2>(w.pressures[i]);
    return m;
}

// ---- comparison of what has been published
void compare(World& w) {
    const auto tf = shim::captured<geometry_msgs::TransformStamped>(ns + "optimisation/imu_transform");
    CHECK(tf.size() == w.transforms.size(), tf.size(), " predicted transforms, expected ", w.transforms.size());
    if (!tf.empty()) {
        const auto& x = tf.back();
        const int k = static_cast<int>(tf.size()) - 1;
        const auto& T = w.transforms.back();
        CHECK(x.header.stamp == stamp(w.t[k]), "stamp of predicted transform ", k);
        if (k > 0) CHECK(x.header.frame_id == w.ids["lidar"] + "_i-1" && x.child_frame_id == w.ids["lidar"], "frames of the predicted transform");
        CHECK((vec(x.transform.translation) - T.block<3, 1>(0, 3)).norm() < 1e-4 && (rot(x.transform.rotation) - T.block<3, 3>(0, 0)).norm() < 1e-4, "predicted transform ", k, ": ", vec(x.transform.translation).transpose(), " expected ", T.block<3, 1>(0, 3).transpose());
    }
    const auto odo = shim::captured<nav_msgs::Odometry>(ns + "optimisation/odometry");
    CHECK(odo.size() == w.states.size(), odo.size(), " optimised states, expected ", w.states.size());
    const auto bias = shim::captured<serpent::ImuBiases>(ns + "optimisation/imu_biases");
    const auto path = shim::captured<nav_msgs::Path>(ns + "output/path"), changes = shim::captured<nav_msgs::Path>(ns + "optimisation/path_changes");
    CHECK(bias.size() == odo.size() && path.size() == odo.size() && changes.size() == odo.size(), "one set of biases and one path per state");
    if (odo.empty()) return;
    const State& st = w.states.back();
    const auto& o = odo.back();
    const double tol = 1e-4;
    const double scale = 1 + st.x.translation().norm();
    CHECK(o.header.stamp == stamp(st.t) && o.header.frame_id == w.map && o.child_frame_id == w.ids[w.body], "header of state ", st.key);
    CHECK((vec(o.pose.pose.position) - st.x.translation()).norm() < tol * scale && (rot(o.pose.pose.orientation) - st.x.rotation().matrix()).norm() < tol, "pose of state ", st.key, ": ", vec(o.pose.pose.position).transpose(), " expected ", st.x.translation().transpose());
    CHECK((vec(o.twist.twist.linear) - st.v).norm() < 10 * tol * scale, "velocity of state ", st.key, ": ", vec(o.twist.twist.linear).transpose(), " expected ", st.v.transpose());
    if (!w.stereo) {
        const Matrix6d c = swap(st.cov);
        for (int r = 0; r < 6; ++r) for (int q = 0; q < 6; ++q) CHECK(pbt::near(o.pose.covariance[static_cast<std::size_t>(6 * r + q)], c(r, q), 1e-5 * (1 + c.norm())), "pose covariance (", r, ", ", q, ") of state ", st.key, ": ", o.pose.covariance[static_cast<std::size_t>(6 * r + q)], " expected ", c(r, q));
    }
    CHECK(bias.back().header.stamp == stamp(st.t), "stamp of the biases");
    CHECK((vec(bias.back().accelerometer_bias) - st.b.accelerometer()).norm() < tol && (vec(bias.back().gyroscope_bias) - st.b.gyroscope()).norm() < tol, "biases of state ", st.key);
    const auto& p = path.back();
    CHECK(p.header.stamp == stamp(st.t) && p.header.frame_id == w.map, "header of the path");
    CHECK(p.poses.size() == st.path.size(), "path of ", p.poses.size(), " poses at state ", st.key);
    const auto& c = changes.back();
    CHECK(c.header.stamp == p.header.stamp && c.header.frame_id == p.header.frame_id, "header of the changed path");
    std::map<int64_t, geometry_msgs::Pose> changed;
    for (const auto& x : c.poses) changed[static_cast<int64_t>(x.header.stamp.toNSec())] = x.pose;
    CHECK(changed.size() == c.poses.size() && changed.size() <= p.poses.size(), "changed poses");
    for (std::size_t j = 0; j < p.poses.size(); ++j) {
        const auto& q = p.poses[j];
        CHECK(q.header.stamp == stamp(w.t[j]) && q.header.frame_id == w.ids[w.body] + "_" + std::to_string(j), "header of path pose ", j, ": ", q.header.frame_id);
        CHECK((vec(q.pose.position) - st.path[j].translation()).norm() < tol * scale && (rot(q.pose.orientation) - st.path[j].rotation().matrix()).norm() < tol, "path pose ", j, " at state ", st.key);
        const auto it = changed.find(w.t[j]);
        const bool moved = path.size() < 2 || j >= path[path.size() - 2].poses.size() || (vec(path[path.size() - 2].poses[j].pose.position) - vec(q.pose.position)).norm() > 1e-3;
        if (moved) CHECK(it != changed.end(), "pose ", j, " changed");
        if (it != changed.end()) CHECK(vec(it->second.position) == vec(q.pose.position) && rot(it->second.orientation) == rot(q.pose.orientation), "changed pose ", j);
    }
    if (w.exact && (w.imu || w.reg)) {
        // exact measurements: the true trajectory
        for (std::size_t j = 0; j < p.poses.size(); ++j) CHECK((vec(p.poses[j].pose.position) - w.truth[j].position()).norm() < 1e-3 && (rot(p.poses[j].pose.orientation) - w.truth[j].attitude().matrix()).norm() < 1e-3, "true pose ", j, " at state ", st.key, " is ", w.truth[j].position().transpose(), " not ", vec(p.poses[j].pose.position).transpose());
        if (w.imu) CHECK((vec(o.twist.twist.linear) - w.truth[st.key].velocity()).norm() < 3e-3, "true velocity");
    }
    if (w.points) {
        const auto pc = shim::captured<pcl::PointCloud<pcl::PointXYZ>>(ns + "debug/stereo_points");
        CHECK(pc.size() == odo.size(), "one landmark cloud per state");
        CHECK(pc.back().size() == st.points.size(), pc.back().size(), " landmarks, expected ", st.points.size());
        std::vector<bool> used(st.points.size(), false);
        for (const auto& q : pc.back()) {
            bool found = false;
            for (std::size_t j = 0; j < st.points.size() && !found; ++j) if (!used[j] && (Eigen::Vector3d(q.x, q.y, q.z) - st.points[j]).norm() < 1e-3 * (1 + st.points[j].norm())) { used[j] = found = true; }
            CHECK(found, "landmark at ", q.x, " ", q.y, " ", q.z);
        }
    } else CHECK(shim::count(ns + "debug/stereo_points") == 0, "landmarks not asked for");
}

// ---- delivery
int inject(World& w, int kind, std::size_t i) {
    if (kind == 0) return shim::inject(ns + "frontend/imu_s2s", imu_message(w, static_cast<int>(i)));
    if (kind == 1) return shim::inject(ns + "registration/transform", reg_message(w, static_cast<int>(i)));
    if (kind == 2) return shim::inject(ns + "stereo/features", stereo_message(w, w.feats[i]));
    return shim::inject(ns + "frontend/barometer", pressure_message(w, i));
}
std::vector<int> eligible(const World& w) {
    std::vector<int> r;
    auto busy = [&](int k) { for (const auto& b : w.busy) if (b.kind == k) return true; return false; };
    if (!busy(0) && static_cast<int>(w.in[0]) + 1 < w.n) r.push_back(0);
    if (w.reg && !busy(1) && static_cast<int>(w.in[1]) + 1 <= w.key.at("imu")) r.push_back(1);
    if (w.stereo && !busy(2) && w.in[2] < w.feats.size()) r.push_back(2);
    if (w.baro && !busy(3) && w.in[3] < w.pressures.size()) r.push_back(3);
    if (w.opt < 0) r.push_back(4);
    return r;
}
void rethrow(World& w, baton::Task* t, const std::string& what) {
    if (!t->error()) return;
    try { std::rethrow_exception(t->error()); }
    catch (const pbt::Fail&) { throw; }
    catch (const std::exception& e) {
        CHECK(w.unsolvable || w.fragile(), what, " raises: ", e.what());
        throw Stop{};
    }
}
// The model and the callback process as much as they can; they have to agree.
void progress(World& w, Busy& b) {
    if (b.kind == 4) { w.initial(); b.done = true; } else w.advance(b);
    if (b.task) b.task->resume();
    else b.task = baton::Task::start([&w, kind = b.kind, i = b.i, what = b.what] {
        const int subs = kind == 4 ? shim::inject(ns + "frontend/initial_odometry", initial_message(w)) : inject(w, kind, i);
        CHECK(subs == 1, what, " has ", subs, " subscribers");
    });
    rethrow(w, b.task, b.what);
    if (w.unsolvable && w.fragile()) throw Stop{};
    CHECK(!w.unsolvable, b.what, ": the same system cannot be solved (", w.imu, w.reg, w.stereo, w.baro, "): ", w.why);
    if (b.done) CHECK(b.task->done(), b.what, " waits although the data it needs are present; ", w.opt, " optimised");
    else { w.waited = true; CHECK(!b.task->done(), b.what, " returned before it could be processed; ", w.opt, " optimised"); }
    compare(w);
}
void deliver(World& w, int kind) {
    static const char* names[] = {"IMU block", "transform", "features", "pressure", "initial odometry"};
    const std::size_t i = kind == 4 ? 0 : w.in[kind]++;
    Busy b{kind, kind < 2 ? i + 1 : i};
    b.next = w.key["barometer"];
    b.what = std::string(names[kind]) + " " + std::to_string(b.i);
    progress(w, b);
    if (!b.done) { if (!w.busy.empty()) w.nested = true; w.busy.push_back(b); }
}
// Resumes a waiting message; true if it could be processed.
bool resume(World& w, std::size_t j) {
    Busy b = w.busy[j];
    const int before = w.key["stereo"];
    progress(w, b);
    if (b.done) w.busy.erase(w.busy.begin() + static_cast<long>(j)); else w.busy[j] = b;
    return b.done || w.key["stereo"] != before;
}
}

PROPERTY(histories, 1500, 30000, "three or more states, a message that had to wait or be skipped, and at least two measurement kinds") {
    World w(s);
    configure(w);
    generate(w);
    auto node = make();
    shim::on_sleep() = [](double) { baton::Task::sleep(); };
    bool ended = false;
    const int end = s.chance(1, 8) ? static_cast<int>(s.integer(1, 40)) : -1;
    try {
        for (int step = 0;; ++step) {
            const auto el = eligible(w);
            if (step == end || (el.empty() && w.busy.empty())) { ended = step == end; break; }
            const std::size_t r = el.empty() ? 0 : s.draw(2);
            if (!el.empty() && (r > 0 || w.busy.empty())) { deliver(w, s.pick(el)); continue; }
            if (!el.empty() || s.chance(1, 3)) { resume(w, s.draw(w.busy.size() - 1)); continue; }
            bool any = false;
            for (std::size_t j = 0; j < w.busy.size() && !any; ++j) any = resume(w, j);
            if (!any) { ended = true; break; }
        }
    } catch (const Stop&) { node.release(); s.label("not solvable"); return; }
    if (!ended || end < 0) {
        int last = w.n - 1;
        if (w.stereo) last = std::min(last, w.key["stereo"]);
        CHECK(w.opt >= last, "all states optimised: ", w.opt, " of ", last);
        CHECK(shim::bus().subs.count(ns + "registration/transform") == 0 || w.reg || shim::bus().subs[ns + "registration/transform"].empty(), "transforms only when wanted");
        CHECK(w.stereo || shim::bus().subs[ns + "stereo/features"].empty(), "features only when wanted");
        CHECK(w.baro || shim::bus().subs[ns + "frontend/barometer"].empty(), "pressures only when wanted");
    }
    if (ended) {
        // shut down while messages wait: all return, and nothing blocks
        if (!w.busy.empty()) s.label("shut down while messages wait");
        shim::node_ok() = false;
        const std::size_t published = shim::bus().published.size();
        for (auto& b : w.busy) { b.task->resume(); CHECK(b.task->done(), b.what, " still waits after shutdown"); rethrow(w, b.task, b.what); }
        auto* t = baton::Task::start([&w] { shim::inject(ns + "frontend/imu_s2s", imu_message(w, 1)); });
        CHECK(t->done(), "waits after shutdown");
        CHECK(w.busy.empty() || shim::bus().published.size() == published, "published after shutdown");
    }
    if (w.skipped) s.label("state without features");
    if (w.ignored) s.label("features between states");
    if (w.nested) s.label("several messages wait");
    s.label(std::string(w.imu ? "imu " : "") + (w.reg ? "registration " : "") + (w.stereo ? "stereo " : "") + (w.baro ? "barometer" : ""));
    s.label(w.exact ? "exact" : "noisy");
    s.nontrivial(w.states.size() >= 3 && (w.waited || w.skipped) && w.imu + w.reg + w.stereo + w.baro >= 2);
    s.note() << w.n << " states, " << w.states.size() << " published, " << w.feats.size() << " feature sets, " << w.pressures.size() << " pressures" << (w.imu ? " imu" : "") << (w.reg ? " registration" : "") << (w.waited ? " waited" : "") << " body " << w.body;
}

PROPERTY(registration_covariances, 400, 8000, "always") {
    World w(s);
    configure(w);
    w.stereo = w.baro = false; w.reg = true;
    for (const char* f : {"stereo", "barometer"}) shim::set_param(ns + "optimisation/factors/" + f, false);
    shim::set_param(ns + "optimisation/factors/registration", true);
    generate(w);
    auto node = make();
    w.initial();
    shim::inject(ns + "frontend/initial_odometry", initial_message(w));
    shim::inject(ns + "frontend/imu_s2s", imu_message(w, 1));
    // from correlated standard deviations of very different size
    Matrix6d C = covariance(s, 1.0, 2.0);
    gen::Vector6d d;
    const double unit = std::pow(10.0, s.uniform(-3, 0));
    for (int i = 0; i < 6; ++i) d[i] = unit * std::pow(10.0, s.uniform(-1, 1));
    C = d.asDiagonal() * C * d.asDiagonal();
    C = 0.5 * (C + C.transpose()).eval();
    const auto k = s.draw(8);
    const int i = static_cast<int>(s.draw(5)), j = (i + 1 + static_cast<int>(s.draw(4))) % 6;
    bool valid = false;
    std::string what = "valid";
    switch (k) {
        case 8:  // what a covariance that was computed and moved to another frame looks like
            for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) if (r != c) C(r, c) += s.uniform(-1, 1) * 1e-13 * std::sqrt(C(r, r) * C(c, c));
            valid = true; what = "symmetric up to rounding"; break;
        case 0: case 1: case 2: valid = true; break;
        case 3: C(i, j) += 0.5 * std::sqrt(C(i, i) * C(j, j)); what = "asymmetric"; break;
        case 4: C(i, i) = -C(i, i); what = "negative variance"; break;
        case 5: C(i, j) = C(j, i) = s.uniform(1.2, 5) * std::sqrt(C(i, i) * C(j, j)); what = "correlation beyond one"; break;
        case 6: C.row(i).setZero(); C.col(i).setZero(); what = "zero variance"; break;
        default: C(i, j) = C(j, i) = std::nan(""); what = "NaN"; break;
    }
    w.rel_cov[1] = C;
    auto m = reg_message(w, 1);
    const bool late = s.chance(1, 8);
    if (late) { m.header.stamp += ros::Duration(s.boolean() ? 0.01 : -0.01); what += ", wrong time"; }
    bool threw = false;
    std::string why;
    try { CHECK(shim::inject(ns + "registration/transform", m) == 1, "subscribed"); } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { threw = true; why = e.what(); }
    CHECK(threw == (!valid || late), "a transform with a covariance that is ", what, threw ? " is rejected: " : " is accepted", why, "\n", C);
    if (!threw) CHECK(shim::count(ns + "optimisation/odometry") == 2, "state published");
    s.label(what);
    s.nontrivial();
    s.note() << what << " " << d.transpose();
}

PROPERTY(rejected, 300, 3000, "always") {
    World w(s);
    configure(w);
    shim::bus().params.erase(ns + "isam2/optimization");
    w.imu = w.reg = w.stereo = w.baro = true;
    for (const char* f : {"imu", "registration", "stereo", "barometer"}) shim::set_param(ns + "optimisation/factors/" + f, true);
    shim::set_param(ns + "stereo_factors/robust/enabled", true);
    generate(w);
    const auto k = s.draw(17);
    auto start = [&]() { auto node = make(); shim::inject(ns + "frontend/initial_odometry", initial_message(w)); return node; };
    shim::on_sleep() = [](double) { throw std::runtime_error("waits"); };
    Feats f{w.t[0], {{1, gtsam::StereoPoint2(320, 300, 240)}, {2, gtsam::StereoPoint2(300, 290, 200)}}};
    const std::string types[] = {"cauchy", "dcs", "fair", "geman_mcclure", "huber", "l2_with_dead_zone", "tukey", "welsch"};
    // constructs, or delivers the first state
    if (k == 0) { shim::set_param(ns + "isam2/optimization", std::string("LevenbergMarquardt")); CHECK_THROWS((void)make(), "unknown optimiser"); }
    else if (k == 1) { shim::set_param(ns + "stereo_factors/robust/type", std::string(s.boolean() ? "Huber" : "l1")); CHECK_THROWS((void)make(), "unknown robust noise"); }
    else if (k == 2) { const std::string t = types[s.draw(7)]; shim::set_param(ns + "stereo_factors/robust/type", t); shim::set_param(ns + "stereo_factors/robust/" + t + "/reweight_scheme", std::string(s.boolean() ? "block" : "NONE")); CHECK_THROWS((void)make(), "unknown scheme ", t); }
    else if (k == 3) { shim::set_param(ns + "barometer/noise/barometer_bias", 0.0); CHECK_THROWS((void)make(), "zero noise of the pressure bias"); }
    else if (k == 4) { shim::set_param(ns + "optimisation/marginalisation/enabled", true); shim::set_param(ns + "optimisation/marginalisation/window_size", -static_cast<int>(s.integer(1, 50))); CHECK_THROWS((void)make(), "negative window"); }
    else if (k == 5) { shim::set_param(ns + "stereo_factors/left_cam_frame", std::string("absent")); CHECK_THROWS((void)make(), "no such camera frame"); }
    else if (k == 6) { w.prior_cov.row(0).setZero(); w.prior_cov.col(0).setZero(); CHECK_THROWS((void)start(), "prior pose noise of zero"); }
    else if (k == 7) { w.vel_cov(1, 1) = 0; CHECK_THROWS((void)start(), "prior velocity noise of zero"); }
    else if (k == 8) { shim::set_param(ns + "prior_noise/" + (s.boolean() ? "accelerometer_bias" : "gyroscope_bias"), 0.0); CHECK_THROWS((void)start(), "prior bias noise of zero"); }
    else if (k == 9) { auto n = start(); auto m = imu_message(w, 1); m.measurements.clear(); CHECK_THROWS(shim::inject(ns + "frontend/imu_s2s", m), "empty IMU block"); }
    else if (k == 10) { auto n = start(); auto m = imu_message(w, 1); auto& c = s.boolean() ? m.measurements[0].linear_acceleration_covariance : m.measurements[0].angular_velocity_covariance; c[4 * s.draw(2)] = s.boolean() ? 0.0 : -1e-4; CHECK_THROWS(shim::inject(ns + "frontend/imu_s2s", m), "IMU noise"); }
    else if (k == 11) { auto n = start(); auto m = imu_message(w, 1); m.start_timestamp = m.measurements[0].header.stamp - ros::Duration(0.01); CHECK_THROWS(shim::inject(ns + "frontend/imu_s2s", m), "IMU block that begins after its interval"); }
    else if (k == 12) { auto n = start(); shim::inject(ns + "frontend/imu_s2s", imu_message(w, 1)); CHECK_THROWS((shim::inject(ns + "registration/transform", reg_message(w, 1)), shim::inject(ns + "registration/transform", reg_message(w, 1))), "the same transform twice"); }
    else if (k == 13) { auto n = start(); auto m = stereo_message(w, f); m.right_info.P[3] = s.boolean() ? 0.0 : w.fx * w.baseline; CHECK_THROWS(shim::inject(ns + "stereo/features", m), "baseline that is not positive"); }
    else if (k == 14) { auto n = start(); auto m = stereo_message(w, f); m.features.push_back(m.features[s.draw(1)]); CHECK_THROWS(shim::inject(ns + "stereo/features", m), "one feature twice"); }
    else if (k == 15 || k == 16) {
        w.pressures.assign(1, std::make_tuple(0, 100.0, 1.0));
        auto n = start();
        auto m = pressure_message(w, 0);
        if (k == 15) m.variance = s.boolean() ? 0.0 : -1.0; else m.header.stamp -= ros::Duration(0.001);
        CHECK_THROWS(shim::inject(ns + "frontend/barometer", m), "pressure ", k == 15 ? "variance" : "time");
    } else {
        shim::set_param(ns + "prior_noise/barometer_bias", 0.0);
        w.pressures.assign(1, std::make_tuple(0, 100.0, 1.0));
        auto n = start();
        CHECK_THROWS(shim::inject(ns + "frontend/barometer", pressure_message(w, 0)), "prior noise of the pressure bias");
    }
    s.nontrivial();
    s.note() << k << " " << s.draw(1000);
}
