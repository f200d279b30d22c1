// P22: the front end over generated sensor streams and arrival orders against a reference timeline.
#include <gtsam/navigation/CombinedImuFactor.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <pcl_conversions/pcl_conversions.h>
#include <serpent/ImuArray.h>
#include <serpent/ImuBiases.h>
#include <serpent/front_end/frontend.hpp>

#include "mutex_use.hpp"
#include "cloud2.hpp"

namespace {
typedef XmlRpc::XmlRpcValue X;
typedef gtsam::PreintegratedCombinedMeasurements Pim;
using cloud2::F;
const std::string ns = "/serpent/";
ros::Time stamp(int64_t t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(t)); return r; }
int64_t nsec(const ros::Time& t) { return static_cast<int64_t>(t.toNSec()); }
template<typename V> void put(V& v, const Eigen::Vector3d& x) { v.x = x[0]; v.y = x[1]; v.z = x[2]; }
void put(geometry_msgs::Quaternion& q, const Eigen::Quaterniond& x) { q.w = x.w(); q.x = x.x(); q.y = x.y(); q.z = x.z(); }
template<typename V> Eigen::Vector3d vec(const V& v) { return {v.x, v.y, v.z}; }
Eigen::Matrix3d rot(const geometry_msgs::Quaternion& q) { return Eigen::Quaterniond(q.w, q.x, q.y, q.z).normalized().toRotationMatrix(); }
template<typename A> void diagonal(A& a, double v) { a.fill(0); const int n = a.size() == 9 ? 3 : 6; for (int i = 0; i < n; ++i) a[n * i + i] = v; }

struct ImuM { int64_t t; Eigen::Quaterniond q; Eigen::Vector3d w, a; double cw, ca; };
struct CloudM { pcl::PCLPointCloud2 c; int64_t t; double sweep; };
struct StereoM { int64_t t, us; int id; };
struct PressureM { int64_t t; double p, v; };
struct Opt { int64_t t; Eigen::Isometry3d T; Eigen::Vector3d v, ba, bg; };
struct Event { int64_t arrival; int kind; std::size_t i; };  // kinds: 0 IMU, 1 stereo, 2 barometer, 3 cloud, 4 optimised state

struct World {
    pbt::Src& s;
    std::map<std::string, Eigen::Isometry3d> frames;  // pose of each frame in the body
    std::map<std::string, std::string> ids;
    std::string body;
    std::string map{"map"};
    bool stereo{true}, only_graph{false}, barometer{true}, over_imu{false}, over_bar{false}, mdc_t{true}, mdc_r{true};
    double gravity{9.81}, na{1e-3}, ng{1e-3}, nb{0.01};
    std::vector<ImuM> imu;
    std::vector<CloudM> clouds;
    std::vector<StereoM> frames_s;
    std::vector<PressureM> bar;
    std::vector<Opt> opt;
    std::vector<int64_t> states;    // reference state times
    std::deque<Event> queue;        // sorted by arrival
    // progress
    std::size_t imu_in{0}, opt_in{0}, opt_queued{0};
    bool starved{false}, late_stereo{false}, late_opt{false}, slept{false};

    explicit World(pbt::Src& s) : s(s) {}
    Eigen::Isometry3d body_imu() const { return frames.at("imu"); }
    Eigen::Isometry3d body_lidar() const { return frames.at("lidar"); }
    Eigen::Isometry3d body_base() const { return frames.at("base_link"); }
    boost::shared_ptr<Pim::Params> params() const {
        auto p = Pim::Params::MakeSharedU(gravity);
        p->accelerometerCovariance = p->gyroscopeCovariance = p->integrationCovariance = 1e-6 * Eigen::Matrix3d::Identity();
        p->biasAccCovariance = p->biasOmegaCovariance = 1e-6 * Eigen::Matrix3d::Identity();
        p->biasAccOmegaInt = 1e-6 * Eigen::Matrix<double, 6, 6>::Identity();
        p->body_P_sensor = gtsam::Pose3(body_imu().matrix());
        return p;
    }
};
gtsam::NavState nav(const Opt& o) { return gtsam::NavState(gtsam::Rot3(Eigen::Matrix3d(o.T.rotation())), o.T.translation(), o.v); }
gtsam::imuBias::ConstantBias bias(const Opt& o) { return gtsam::imuBias::ConstantBias(gtsam::Vector3(o.ba), gtsam::Vector3(o.bg)); }
// every measurement is held until the next one
void integrate(Pim& pim, const std::vector<ImuM>& m, int64_t a, int64_t b) {
    for (std::size_t i = 0; i < m.size(); ++i) {
        const int64_t from = std::max(a, m[i].t), to = i + 1 < m.size() ? std::min(b, m[i + 1].t) : b;
        if (to > from) pim.integrateMeasurement(m[i].a, m[i].w, 1e-9 * static_cast<double>(to - from));
    }
}

void configure(World& w) {
    pbt::Src& s = w.s;
    shim::bus().reset();
    // frames
    const std::vector<std::string> names{"base_link", "imu", "lidar"};
    const bool plain = s.chance(1, 5);
    std::map<std::string, Eigen::Isometry3d> at;  // in the body frame
    w.body = names[s.draw(2)];
    if (w.body != "base_link") s.label("body is " + w.body);
    X node; node["unused"] = 1;
    X sub; sub["unused2"] = X(); 
    X children;
    for (const auto& n : names) {
        w.ids[n] = s.boolean() ? n : "robot/" + n;
        if (n == w.body) { w.frames[n] = Eigen::Isometry3d::Identity(); if (w.ids[n] != n) node["frame_id"] = w.ids[n]; continue; }
        const Eigen::Isometry3d T = plain ? Eigen::Isometry3d::Identity() : gen::isometry(s, 1.0);
        w.frames[n] = T;
        X f;
        if (w.ids[n] != n) f["frame_id"] = w.ids[n];
        f["translation"]["x"] = T.translation()[0]; f["translation"]["y"] = T.translation()[1]; f["translation"]["z"] = T.translation()[2];
        const Eigen::Quaterniond q(T.rotation());
        f["rotation"]["w"] = q.w(); f["rotation"]["x"] = q.x(); f["rotation"]["y"] = q.y(); f["rotation"]["z"] = q.z();
        children[n] = f;
    }
    node["frames"] = children;
    X top; top[w.body] = node;
    shim::set_param(ns + "body_frames", top);
    // settings
    w.stereo = s.boolean();
    if (!w.stereo || s.boolean()) shim::set_param(ns + "optimisation/factors/stereo", w.stereo);
    w.only_graph = s.boolean();
    if (w.only_graph || s.boolean()) shim::set_param(ns + "stereo_tracking/only_graph_frames", w.only_graph);
    if (!w.stereo && s.chance(1, 3)) { w.mdc_t = s.boolean(); shim::set_param(ns + "mdc/translation", w.mdc_t); }
    if (!w.stereo && s.chance(1, 3)) { w.mdc_r = s.boolean(); shim::set_param(ns + "mdc/rotation", w.mdc_r); }
    w.barometer = s.boolean();
    if (!w.barometer || s.boolean()) shim::set_param(ns + "optimisation/factors/barometer", w.barometer);
    w.over_imu = s.boolean();
    if (w.over_imu) { shim::set_param(ns + "imu/noise/overwrite", true); if (s.boolean()) { w.na = s.uniform(0.01, 0.5); shim::set_param(ns + "imu/noise/accelerometer", w.na); } if (s.boolean()) { w.ng = s.uniform(0.01, 0.5); shim::set_param(ns + "imu/noise/gyroscope", w.ng); } }
    w.over_bar = w.barometer && s.chance(1, 3);
    if (w.over_bar) { shim::set_param(ns + "barometer/noise/overwrite", true); if (s.boolean()) { w.nb = s.uniform(0.1, 3); shim::set_param(ns + "barometer/noise/barometer", w.nb); } }
    if (s.chance(1, 3)) { w.gravity = s.uniform(9.0, 10.0); shim::set_param(ns + "gravity", w.gravity); }
    if (s.chance(1, 3)) { w.map = "world"; shim::set_param(ns + "map_frame_id", w.map); }
}

void generate(World& w) {
    pbt::Src& s = w.s;
    const int64_t base = 1600000000LL * 1000000000LL + static_cast<int64_t>(s.draw(2000000)) * 1000;
    const int n = static_cast<int>(s.size(2, 6));
    const int64_t ms = 1000000;
    // clouds; their stamps have microseconds
    int64_t t = base + 40 * ms;
    for (int k = 0; k < n; ++k) {
        CloudM m;
        m.t = t;
        m.sweep = s.uniform(0.03, 0.1);
        pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"x", {F::FLOAT32}}, {"y", {F::FLOAT32}}, {"z", {F::FLOAT32}}, {"t", {F::FLOAT32}}}, 2, 8);
        if (c.width == 0) { c.width = 1; c.height = 1; c.row_step = c.point_step; c.data.assign(c.point_step, 0); }
        const std::size_t np = cloud2::points(c);
        for (std::size_t i = 0; i < np; ++i) {
            for (const char* a : {"x", "y", "z"}) cloud2::set(c, *cloud2::find(c, a), i, s.uniform(-20, 20));
            cloud2::set(c, *cloud2::find(c, "t"), i, i + 1 == np ? m.sweep : m.sweep * s.uniform(0, 1));
        }
        double longest = 0;
        for (std::size_t i = 0; i < np; ++i) longest = std::max(longest, cloud2::get(c, *cloud2::find(c, "t"), i));
        m.sweep = longest;
        c.header.stamp = static_cast<uint64_t>(t / 1000);
        c.header.frame_id = w.ids.at("lidar");
        c.header.seq = static_cast<uint32_t>(k);
        m.c = c;
        w.clouds.push_back(m);
        t += 100 * ms + static_cast<int64_t>(s.draw(30000)) * 1000;
    }
    const int64_t end = t + 250 * ms;
    // IMU: some measurements are taken at the times of clouds and images
    std::set<int64_t> special;
    if (w.stereo) {
        int64_t u = base + 45 * ms + static_cast<int64_t>(s.draw(60 * ms));
        const int64_t period = s.pick({60 * ms, 100 * ms, 170 * ms});
        int id = 0;
        while (u < end) {
            int64_t v = u;
            if (s.chance(1, 8)) { const auto& c = w.clouds[s.draw(w.clouds.size() - 1)]; if (w.frames_s.empty() || c.t / 1000 * 1000 > w.frames_s.back().t + ms) v = c.t; }
            if (!w.frames_s.empty() && v <= w.frames_s.back().t + ms) v = w.frames_s.back().t + 2 * ms;
            if (!s.chance(1, 6)) w.frames_s.push_back({v, v / 1000 * 1000, id++});
            else s.label("missing stereo frame");
            u = std::max(u, v) + period + static_cast<int64_t>(s.draw(5 * ms));
        }
        w.frames_s.push_back({end + ms, (end + ms) / 1000 * 1000, id++});
    }
    // reference state times: the first image within the sweep interval, or the start of the cloud
    for (int k = 0; k + 1 < n; ++k) {
        int64_t st = w.clouds[k].t;
        for (const auto& f : w.frames_s) if (f.us >= w.clouds[k].t) { if (f.us < w.clouds[k + 1].t) { st = f.us; s.label("state at an image"); } break; }
        w.states.push_back(st);
    }
    for (auto x : w.states) if (s.chance(1, 3)) special.insert(x);
    for (const auto& c : w.clouds) if (s.chance(1, 4)) special.insert(c.t);
    int64_t u = base + static_cast<int64_t>(s.draw(10 * ms));
    const bool still = s.chance(1, 10);
    const int mode = static_cast<int>(s.draw(3));  // 0: no orientation
    while (u < end + 60 * ms) {
        auto sp = special.lower_bound(u);
        int64_t v = u;
        if (sp != special.end() && *sp < u + 12 * ms) { v = *sp; special.erase(sp); s.label("IMU measurement at a state or cloud time"); }
        ImuM m;
        m.t = v;
        m.w = still ? Eigen::Vector3d::Zero() : gen::vec3(s, 1.5);
        m.a = still ? Eigen::Vector3d(0, 0, 9.81) : Eigen::Vector3d(gen::vec3(s, 3.0) + Eigen::Vector3d(0, 0, 9.81));
        if (mode == 0) m.q = Eigen::Quaterniond(0, 0, 0, 0);
        else if (mode == 1 || w.imu.empty()) m.q = Eigen::Quaterniond(gen::rotation(s, false));
        else m.q = w.imu.back().q * Eigen::Quaterniond(gen::rodrigues(0.05 * gen::vec3(s, 1.0)));
        if (mode != 0) m.q.normalize();
        m.cw = s.pick({1e-4, 2e-4, 1e-3}); m.ca = s.pick({1e-3, 5e-3, 1e-2});
        w.imu.push_back(m);
        u = v + ms + static_cast<int64_t>(s.draw(15 * ms));
    }
    if (w.barometer) {
        int64_t b = base + static_cast<int64_t>(s.draw(200 * ms));
        if (b > w.states[0]) s.label("state before the first pressure");
        const int64_t period = s.pick({30 * ms, 80 * ms, 150 * ms});
        double p = 101325;
        while (b < end + 200 * ms) {
            if (s.chance(1, 8)) { for (auto x : w.states) if (w.bar.empty() ? x > base : (x > w.bar.back().t && x <= b)) { b = x; s.label("pressure at a state time"); break; } }
            p += s.uniform(-20, 20);
            w.bar.push_back({b, p, s.uniform(0.5, 4)});
            b += period + static_cast<int64_t>(s.draw(10 * ms));
        }
    }
    for (std::size_t k = 0; k < w.states.size(); ++k) {
        Opt o;
        o.t = w.states[k];
        o.T = gen::isometry(s, 20.0); o.v = gen::vec3(s, 3.0); o.ba = gen::vec3(s, 0.2); o.bg = gen::vec3(s, 0.1);
        w.opt.push_back(o);
    }
    // arrivals: each kind in its own order, delayed by up to a sweep
    auto arrivals = [&](int kind, const std::vector<int64_t>& times, int64_t delay) {
        int64_t last = 0;
        const bool prompt = s.boolean();
        for (std::size_t i = 0; i < times.size(); ++i) {
            last = std::max(last, times[i] + (prompt ? 0 : static_cast<int64_t>(s.draw(static_cast<uint64_t>(delay)))));
            w.queue.push_back({last, kind, i});
        }
    };
    std::vector<int64_t> ti, ts, tb, tc;
    for (const auto& x : w.imu) ti.push_back(x.t);
    for (const auto& x : w.frames_s) ts.push_back(x.t);
    for (const auto& x : w.bar) tb.push_back(x.t);
    for (const auto& x : w.clouds) tc.push_back(x.t + static_cast<int64_t>(1e9 * x.sweep));
    arrivals(0, ti, s.boolean() ? 20 * ms : 400 * ms);
    arrivals(1, ts, 300 * ms);
    arrivals(2, tb, 300 * ms);
    arrivals(3, tc, 60 * ms);
    std::stable_sort(w.queue.begin(), w.queue.end(), [](const Event& a, const Event& b) { return a.arrival < b.arrival; });
}

sensor_msgs::Imu message(const World& w, const ImuM& m) {
    sensor_msgs::Imu r;
    r.header.stamp = stamp(m.t); r.header.frame_id = w.ids.at("imu");
    r.orientation.w = m.q.w(); r.orientation.x = m.q.x(); r.orientation.y = m.q.y(); r.orientation.z = m.q.z();
    put(r.angular_velocity, m.w); put(r.linear_acceleration, m.a);
    diagonal(r.orientation_covariance, 0.01); diagonal(r.angular_velocity_covariance, m.cw); diagonal(r.linear_acceleration_covariance, m.ca);
    return r;
}

// Delivers one event; checks what is published at once.
void deliver(World& w, const Event& e) {
    auto& pub = shim::bus().published;
    const std::size_t before = pub.size();
    auto count = [&](const std::string& topic) { std::size_t n = 0; for (std::size_t i = before; i < pub.size(); ++i) n += pub[i].topic == ns + topic; return n; };
    if (e.kind == 0) {
        const ImuM& m = w.imu[e.i];
        CHECK(shim::inject(ns + "input/imu", message(w, m)) == 1, "IMU subscription");
        w.imu_in = e.i + 1;
        CHECK(count("output/odometry") == (w.opt_in > 0 ? 1u : 0u), "odometry at IMU rate once a state has been optimised");
        if (w.opt_in > 0) {
            const Opt& o = w.opt[w.opt_in - 1];
            const auto got = shim::captured<nav_msgs::Odometry>(ns + "output/odometry").back();
            Pim pim(w.params(), bias(o));
            int64_t last = o.t;
            for (std::size_t i = 0; i <= e.i; ++i) if (w.imu[i].t > last) { pim.integrateMeasurement(w.imu[i].a, w.imu[i].w, 1e-9 * static_cast<double>(w.imu[i].t - last)); last = w.imu[i].t; }
            const gtsam::NavState x = pim.predict(nav(o), bias(o));
            CHECK(got.header.stamp == stamp(m.t) && got.header.frame_id == w.map && got.child_frame_id == w.ids.at(w.body), "header of the odometry");
            CHECK((vec(got.pose.pose.position) - x.position()).norm() < 1e-7 * (1 + x.position().norm()), "predicted position ", vec(got.pose.pose.position).transpose(), " expected ", x.position().transpose());
            CHECK((rot(got.pose.pose.orientation) - x.attitude().matrix()).norm() < 1e-7, "predicted orientation");
            CHECK((vec(got.twist.twist.linear) - x.velocity()).norm() < 1e-7 * (1 + x.velocity().norm()), "predicted velocity ", vec(got.twist.twist.linear).transpose(), " expected ", x.velocity().transpose());
            const Eigen::Vector3d av = w.body_imu().rotation() * (m.w - o.bg);
            CHECK((vec(got.twist.twist.angular) - av).norm() < 1e-8 * (1 + av.norm()), "angular velocity ", vec(got.twist.twist.angular).transpose(), " expected ", av.transpose());
        }
    } else if (e.kind == 1) {
        const StereoM& f = w.frames_s[e.i];
        sensor_msgs::Image l, r; sensor_msgs::CameraInfo li, ri;
        l.header.stamp = r.header.stamp = li.header.stamp = ri.header.stamp = stamp(f.t);
        l.header.frame_id = li.header.frame_id = "left"; r.header.frame_id = ri.header.frame_id = "right";
        l.width = li.width = 2; r.width = ri.width = 3; l.height = r.height = li.height = ri.height = 1; l.encoding = r.encoding = "mono8"; l.step = 2; r.step = 3;
        l.data = {static_cast<uint8_t>(f.id), 1}; r.data = {2, static_cast<uint8_t>(f.id), 7};
        li.K[0] = f.id + 1.0; ri.K[0] = f.id + 2.0;
        std::vector<int> order{0, 1, 2, 3};
        for (int i = 3; i > 0; --i) std::swap(order[i], order[w.s.draw(i)]);
        for (int i : order) {
            if (i == 0) CHECK(shim::inject(ns + "input/stereo/left/image", l) == 1, "left image subscription");
            if (i == 1) CHECK(shim::inject(ns + "input/stereo/right/image", r) == 1, "right image subscription");
            if (i == 2) CHECK(shim::inject(ns + "input/stereo/left/camera_info", li) == 1, "left info subscription");
            if (i == 3) CHECK(shim::inject(ns + "input/stereo/right/camera_info", ri) == 1, "right info subscription");
        }
        CHECK(count("stereo/left/image") == (w.only_graph ? 0u : 1u), "images pass at once unless only graph frames are wanted");
    } else if (e.kind == 2) {
        const PressureM& p = w.bar[e.i];
        sensor_msgs::FluidPressure m;
        m.header.stamp = stamp(p.t); m.header.frame_id = "baro"; m.fluid_pressure = p.p; m.variance = p.v;
        CHECK(shim::inject(ns + "input/barometer", m) == 1, "barometer subscription");
    } else if (e.kind == 4) {
        const Opt& o = w.opt[e.i];
        serpent::ImuBiases b; b.header.stamp = stamp(o.t); put(b.accelerometer_bias, o.ba); put(b.gyroscope_bias, o.bg);
        nav_msgs::Odometry m;
        m.header.stamp = stamp(o.t); m.header.frame_id = w.map; m.child_frame_id = w.ids.at(w.body);
        put(m.pose.pose.position, o.T.translation()); put(m.pose.pose.orientation, Eigen::Quaterniond(o.T.rotation()));
        put(m.twist.twist.linear, o.v); put(m.twist.twist.angular, Eigen::Vector3d(1, 2, 3));
        for (int i = 0; i < 6; ++i) m.pose.covariance[7 * i] = 0.01 * (i + 1);
        const std::size_t tf = shim::bus().tf.size();
        if (w.s.boolean()) { shim::inject(ns + "optimisation/imu_biases", b); shim::inject(ns + "optimisation/odometry", m); }
        else { shim::inject(ns + "optimisation/odometry", m); shim::inject(ns + "optimisation/imu_biases", b); }
        w.opt_in = e.i + 1;
        const Eigen::Isometry3d B = o.T * w.body_base();
        CHECK(count("output/pose") == 1, "one pose per optimised state, got ", count("output/pose"));
        const auto pose = shim::captured<geometry_msgs::PoseWithCovarianceStamped>(ns + "output/pose").back();
        CHECK(pose.header.stamp == stamp(o.t) && pose.header.frame_id == w.map, "header of the pose");
        CHECK((vec(pose.pose.pose.position) - B.translation()).norm() < 1e-8 * (1 + B.translation().norm()) && (rot(pose.pose.pose.orientation) - B.rotation()).norm() < 1e-7, "pose of base_link ", vec(pose.pose.pose.position).transpose(), " expected ", B.translation().transpose());
        if (w.body == "base_link") for (int i = 0; i < 36; ++i) CHECK(pbt::near(pose.pose.covariance[i], m.pose.covariance[i], 1e-9), "pose covariance");
        CHECK(shim::bus().tf.size() == tf + 1, "one transform per optimised state");
        const auto x = std::any_cast<geometry_msgs::TransformStamped>(shim::bus().tf.back());
        CHECK(x.header.stamp == stamp(o.t) && x.header.frame_id == w.map && x.child_frame_id == w.ids.at("base_link"), "header of the transform: ", x.header.frame_id, " to ", x.child_frame_id);
        CHECK((vec(x.transform.translation) - B.translation()).norm() < 1e-8 * (1 + B.translation().norm()) && (rot(x.transform.rotation) - B.rotation()).norm() < 1e-7, "transform of base_link");
    }
}

// Optimised states follow the initial odometry and each deskewed cloud after the first.
void schedule(World& w) {
    const std::size_t ready = std::max(shim::count(ns + "frontend/initial_odometry"), shim::count(ns + "frontend/deskewed_pointcloud"));
    while (w.opt_queued < ready && w.opt_queued < w.opt.size()) {
        const std::size_t pos = w.s.draw(std::min<uint64_t>(8, w.queue.size()));
        // states in order
        std::size_t first = 0;
        for (std::size_t i = 0; i < w.queue.size(); ++i) if (w.queue[i].kind == 4) first = i + 1;
        const std::size_t at = std::min(std::max(pos, first), w.queue.size());
        w.queue.insert(w.queue.begin() + static_cast<long>(at), Event{0, 4, w.opt_queued++});
    }
}
bool next_not_cloud(World& w) {
    schedule(w);
    for (std::size_t i = 0; i < w.queue.size(); ++i) {
        if (w.queue[i].kind == 3) continue;
        const Event e = w.queue[i];
        w.queue.erase(w.queue.begin() + static_cast<long>(i));
        deliver(w, e);
        return true;
    }
    return false;
}
}

PROPERTY(histories, 1500, 30000, "three or more clouds, moving, with frames that differ from the body") {
    World w(s);
    configure(w);
    generate(w);
    auto node = std::make_shared<serpent::Frontend>();
    CHECK(node->output_pointcloud_topic() == ns + "frontend/deskewed_pointcloud", "topic ", node->output_pointcloud_topic());
    std::string failed;
    const bool halts = s.chance(1, 6);
    bool halted = false;
    shim::on_sleep() = [&](double) {
        w.slept = true;
        if (halts && s.chance(1, 4)) { halted = true; shim::node_ok() = false; return; }
        try {
            const int n = static_cast<int>(s.integer(1, 3));
            for (int i = 0; i < n; ++i) if (!next_not_cloud(w)) { if (i == 0) { w.starved = true; shim::node_ok() = false; } break; }
        } catch (const pbt::Fail& f) { failed = f.what(); shim::node_ok() = false; }
    };
    std::size_t clouds = 0;
    while (!w.queue.empty()) {
        schedule(w);
        Event e = w.queue.front();
        for (std::size_t j = 0; j < w.queue.size(); ++j) if (w.queue[j].kind == e.kind && w.queue[j].i == e.i) { w.queue.erase(w.queue.begin() + static_cast<long>(j)); break; }
        if (e.kind != 3) { deliver(w, e); continue; }
        const CloudM& c = w.clouds[e.i];
        CHECK(shim::inject(ns + "formatter/formatted_pointcloud", c.c) == 1, "cloud subscription");
        if (!failed.empty()) throw pbt::Fail(failed);
        if (halted) {
            // shut down while waiting: no callback blocks afterwards
            s.label("shut down while waiting");
            CHECK(shim::count(ns + "frontend/deskewed_pointcloud") < std::max<std::size_t>(clouds, 1), "no cloud is deskewed after the shutdown");
            for (int i = 0; i < 12 && next_not_cloud(w); ++i) {}
            return;
        }
        CHECK(!w.starved, "the front end waits for data that has been delivered, at cloud ", e.i, " of ", w.clouds.size(), ": ", w.opt_in, " states of ", w.opt_queued, ", ", w.imu_in, " IMU of ", w.imu.size(), ", body ", w.body, ", stereo ", w.stereo, " initial ", shim::count(ns + "frontend/initial_odometry"));
        ++clouds;
        const std::size_t k = clouds - 1;  // states so far
        CHECK(shim::count(ns + "frontend/deskewed_pointcloud") == k, "deskewed clouds after ", clouds, " clouds: ", shim::count(ns + "frontend/deskewed_pointcloud"));
        CHECK(shim::count(ns + "frontend/initial_odometry") == std::min<std::size_t>(1, k), "initial odometry");
        CHECK(shim::count(ns + "frontend/imu_s2s") == (k > 1 ? k - 1 : 0), "IMU blocks");
        if (k == 0) continue;
        const int64_t st = w.states[k - 1];
        if (k == 1) {
            const auto o = shim::captured<nav_msgs::Odometry>(ns + "frontend/initial_odometry").back();
            CHECK(o.header.stamp == stamp(st) && o.header.frame_id == w.map && o.child_frame_id == w.ids.at(w.body), "header of the initial odometry: ", nsec(o.header.stamp) - st, " ns off");
            CHECK(vec(o.pose.pose.position).norm() == 0 && vec(o.twist.twist.linear).norm() == 0, "initial position and velocity");
            std::size_t i = 1;
            while (w.imu[i].t < st) ++i;
            const ImuM &a = w.imu[i - 1], &b = w.imu[i];
            Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
            if (a.q.coeffs().norm() > 0) {
                const double f = static_cast<double>(st - a.t) / static_cast<double>(b.t - a.t);
                Eigen::Quaterniond q2 = b.q;
                if (a.q.dot(q2) < 0) q2.coeffs() = -q2.coeffs();
                const Eigen::AngleAxisd d(a.q.conjugate() * q2);
                if (std::abs(a.q.dot(q2)) > 1e-3) {
                    R = gen::rodrigues(Eigen::Vector3d(M_PI, 0, 0)) * (a.q * Eigen::Quaterniond(Eigen::AngleAxisd(d.angle() * f, d.axis()))).toRotationMatrix() * w.body_imu().rotation().transpose();
                    CHECK((rot(o.pose.pose.orientation) - R).norm() < 1e-6, "initial orientation");
                }
            } else CHECK((rot(o.pose.pose.orientation) - R).norm() < 1e-9, "initial orientation without an IMU orientation");
            for (int r = 0; r < 6; ++r) for (int q = 0; q < 6; ++q) CHECK(pbt::near(o.pose.covariance[6 * r + q], r == q ? 1e-6 : 0.0, 1e-12), "initial pose covariance");
        } else {
            const auto b = shim::captured<serpent::ImuArray>(ns + "frontend/imu_s2s").back();
            const int64_t from = w.states[k - 2];
            CHECK(b.start_timestamp == stamp(from) && b.end_timestamp == stamp(st), "interval of the IMU block");
            std::vector<std::size_t> want;
            for (std::size_t i = 0; i < w.imu.size(); ++i) if (w.imu[i].t < st && (w.imu[i].t >= from || w.imu[i + 1].t > from)) want.push_back(i);
            CHECK(b.measurements.size() == want.size(), b.measurements.size(), " measurements in the block, expected ", want.size());
            for (std::size_t i = 0; i < want.size(); ++i) {
                const ImuM& m = w.imu[want[i]];
                const auto& g = b.measurements[i];
                CHECK(g.header.stamp == stamp(m.t), "measurement ", i, " of the block");
                CHECK((vec(g.angular_velocity) - m.w).norm() < 1e-12 && (vec(g.linear_acceleration) - m.a).norm() < 1e-12, "values of measurement ", i);
                for (int d = 0; d < 3; ++d) CHECK(pbt::near(g.angular_velocity_covariance[4 * d], w.over_imu ? w.ng * w.ng : m.cw, 1e-12) && pbt::near(g.linear_acceleration_covariance[4 * d], w.over_imu ? w.na * w.na : m.ca, 1e-12), "noise of measurement ", i);
            }
        }
        // deskewed cloud: the previous cloud at the state time
        const CloudM& p = w.clouds[e.i - 1];
        const auto d = shim::captured<pcl::PCLPointCloud2>(ns + "frontend/deskewed_pointcloud").back();
        CHECK(static_cast<int64_t>(d.header.stamp) * 1000 == st && d.header.frame_id == p.c.header.frame_id, "header of the deskewed cloud");
        CHECK(cloud2::points(d) == cloud2::points(p.c), "points of the deskewed cloud");
        const Opt& o = w.opt[k == 1 ? 0 : k - 2];
        gtsam::NavState start = nav(o);
        if (k > 1) { Pim pim(w.params(), bias(o)); integrate(pim, w.imu, w.states[k - 2], p.t); start = pim.predict(start, bias(o)); }
        Pim pim(w.params(), bias(o));
        const int64_t sweep_end = p.t + static_cast<int64_t>(std::llround(1e9 * p.sweep));
        integrate(pim, w.imu, p.t, sweep_end);
        const gtsam::NavState stop = pim.predict(start, bias(o));
        const Eigen::Matrix4d S = w.body_lidar().matrix().inverse() * start.pose().matrix().inverse() * stop.pose().matrix() * w.body_lidar().matrix();
        Eigen::AngleAxisd aa(Eigen::Matrix3d(S.block<3, 3>(0, 0)));
        Eigen::Vector3d rv = aa.angle() * aa.axis(), tr = S.block<3, 1>(0, 3);
        if (!w.mdc_t) tr.setZero();
        if (!w.mdc_r) rv.setZero();
        const double fn = 1e-9 * static_cast<double>(st - p.t) / p.sweep;
        const Eigen::Isometry3d TN = gen::make_iso(gen::rodrigues(fn * rv), fn * tr).inverse();
        for (std::size_t i = 0; i < cloud2::points(p.c); ++i) {
            auto xyz = [&](const pcl::PCLPointCloud2& q) { return Eigen::Vector3d(cloud2::get(q, *cloud2::find(q, "x"), i), cloud2::get(q, *cloud2::find(q, "y"), i), cloud2::get(q, *cloud2::find(q, "z"), i)); };
            const double f = cloud2::get(p.c, *cloud2::find(p.c, "t"), i) / p.sweep;
            const Eigen::Vector3d x = xyz(p.c), y = TN * (gen::make_iso(gen::rodrigues(f * rv), f * tr) * x);
            CHECK((xyz(d) - y).norm() < 2e-5 * (1 + x.norm() / 10), "point ", i, " deskewed to ", xyz(d).transpose(), " expected ", y.transpose(), " from ", x.transpose());
        }
    }
    CHECK(clouds == w.clouds.size(), "clouds");
    // stereo frames passed on
    if (w.stereo) {
        std::vector<StereoM> want;
        for (const auto& f : w.frames_s) if (!w.only_graph || std::count(w.states.begin(), w.states.end(), f.us)) want.push_back(f);
        const auto l = shim::captured<sensor_msgs::Image>(ns + "stereo/left/image"), r = shim::captured<sensor_msgs::Image>(ns + "stereo/right/image");
        const auto li = shim::captured<sensor_msgs::CameraInfo>(ns + "stereo/left/camera_info"), ri = shim::captured<sensor_msgs::CameraInfo>(ns + "stereo/right/camera_info");
        CHECK(l.size() == want.size() && r.size() == want.size() && li.size() == want.size() && ri.size() == want.size(), l.size(), " stereo frames passed on, expected ", want.size());
        for (std::size_t i = 0; i < want.size(); ++i) {
            const ros::Time t = stamp(want[i].us);
            CHECK(l[i].header.stamp == t && r[i].header.stamp == t && li[i].header.stamp == t && ri[i].header.stamp == t, "stamp of stereo frame ", i);
            CHECK(l[i].data[0] == static_cast<uint8_t>(want[i].id) && l[i].width == 2 && r[i].data[1] == static_cast<uint8_t>(want[i].id) && r[i].width == 3 && li[i].K[0] == want[i].id + 1.0 && ri[i].K[0] == want[i].id + 2.0, "content of stereo frame ", i);
            CHECK(l[i].header.frame_id == "left" && ri[i].header.frame_id == "right", "frames of stereo frame ", i);
        }
    }
    // pressures at the states
    if (w.barometer) {
        PressureM last = w.bar.back();
        for (std::size_t k = 0; k < w.states.size(); ++k) { last.t += 1000000; last.p += 1; w.bar.push_back(last); deliver(w, {0, 2, w.bar.size() - 1}); }
        const auto got = shim::captured<sensor_msgs::FluidPressure>(ns + "frontend/barometer");
        CHECK(got.size() == w.states.size(), got.size(), " pressures for ", w.states.size(), " states");
        for (std::size_t k = 0; k < got.size(); ++k) {
            const int64_t st = w.states[k];
            double p, v;
            if (w.bar[0].t > st) { p = w.bar[0].p; v = w.bar[0].v; s.label("pressure approximated"); }
            else {
                std::size_t j = 1;
                while (w.bar[j].t < st) ++j;
                const auto &a = w.bar[j - 1], &b = w.bar[j];
                const double f = static_cast<double>(st - a.t) / static_cast<double>(b.t - a.t);
                p = a.p + f * (b.p - a.p); v = a.v + f * (b.v - a.v);
            }
            if (w.over_bar) v = w.nb * w.nb;
            CHECK(got[k].header.stamp == stamp(st), "stamp of pressure ", k);
            CHECK(pbt::near(got[k].fluid_pressure, p, 1e-4) && pbt::near(got[k].variance, v, 1e-6), "pressure ", k, ": ", got[k].fluid_pressure, " (", got[k].variance, ") expected ", p, " (", v, ")");
        }
    } else CHECK(shim::bus().subs.count(ns + "input/barometer") == 0 || shim::count(ns + "frontend/barometer") == 0, "barometer disabled");
    if (w.slept) s.label("waited for late data");
    s.nontrivial(w.clouds.size() >= 3 && (w.body_lidar().matrix() - Eigen::Matrix4d::Identity()).norm() > 1e-3);
    s.note() << w.clouds.size() << " clouds, " << w.frames_s.size() << " stereo frames, " << w.bar.size() << " pressures, body " << w.body << (w.slept ? ", waited" : "");
}

PROPERTY(initial_state, 400, 8000, "always") {
    World w(s);
    configure(w);
    generate(w);
    w.stereo = false;
    shim::set_param(ns + "optimisation/factors/stereo", false);
    Eigen::Vector3d p = Eigen::Vector3d::Zero(), v = p;
    for (int k = 0; k < 3; ++k) {
        const std::string a(1, "xyz"[k]);
        if (s.boolean()) { p[k] = s.uniform(-9, 9); shim::set_param(ns + "pose/position/" + a, p[k]); }
        if (s.boolean()) { v[k] = s.uniform(-9, 9); shim::set_param(ns + "velocity/linear/" + a, v[k]); }
    }
    double sp = 1e-3, sr = 1e-3, sv = 1e-3;
    if (s.boolean()) { sp = s.uniform(0.01, 1); shim::set_param(ns + "prior_noise/position", sp); }
    if (s.boolean()) { sr = s.uniform(0.01, 1); shim::set_param(ns + "prior_noise/rotation", sr); }
    if (s.boolean()) { sv = s.uniform(0.01, 1); shim::set_param(ns + "prior_noise/linear_velocity", sv); }
    std::string ref = "NED";
    if (s.boolean()) { ref = s.pick({std::string("NED"), std::string("NWU"), std::string("ENU")}); shim::set_param(ns + "imu/reference_frame", ref); }
    const Eigen::Quaterniond q = s.chance(1, 5) ? Eigen::Quaterniond(0, 0, 0, 0) : Eigen::Quaterniond(gen::rotation(s)).normalized();
    for (auto& m : w.imu) m.q = q;
    serpent::Frontend node;
    for (std::size_t i = 0; i < w.imu.size(); ++i) deliver(w, {0, 0, i});
    CHECK(shim::inject(ns + "formatter/formatted_pointcloud", w.clouds[0].c) == 1, "cloud subscription");
    CHECK(shim::inject(ns + "formatter/formatted_pointcloud", w.clouds[1].c) == 1, "cloud subscription");
    const auto got = shim::captured<nav_msgs::Odometry>(ns + "frontend/initial_odometry");
    CHECK(got.size() == 1, "one initial odometry, got ", got.size());
    const auto& o = got[0];
    CHECK(o.header.stamp == stamp(w.clouds[0].t) && o.header.frame_id == w.map && o.child_frame_id == w.ids.at(w.body), "header");
    CHECK((vec(o.pose.pose.position) - p).norm() < 1e-12 && (vec(o.twist.twist.linear) - v).norm() < 1e-12, "position and velocity");
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    if (q.coeffs().norm() > 0) {
        R = q.toRotationMatrix() * w.body_imu().rotation().transpose();
        if (ref == "NED") R = gen::rodrigues(Eigen::Vector3d(M_PI, 0, 0)) * R;
    }
    CHECK((rot(o.pose.pose.orientation) - R).norm() < 1e-7, "orientation, reference ", ref);
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) {
        CHECK(pbt::near(o.pose.covariance[6 * r + c], r != c ? 0.0 : r < 3 ? sp * sp : sr * sr, 1e-12), "pose covariance ", r, c);
        if (r < 3) CHECK(pbt::near(o.twist.covariance[6 * r + c], r != c ? 0.0 : sv * sv, 1e-12), "velocity covariance ", r, c);
    }
    s.nontrivial();
    s.note() << p.transpose() << " " << v.transpose() << " " << ref << " " << q.coeffs().transpose();
}

PROPERTY(rejected, 300, 3000, "always") {
    World w(s);
    configure(w);
    const auto k = s.draw(4);
    if (k == 0) {
        X f; f["translation"]["x"] = 0.0; f["translation"]["y"] = 0.0; f["translation"]["z"] = 0.0; f["rotation"]["w"] = 1.0; f["rotation"]["x"] = 0.0; f["rotation"]["y"] = 0.0; f["rotation"]["z"] = 0.0;
        X c; c["lidar"] = f; X n; n["frames"] = c; X t; t["imu"] = n;
        shim::set_param(ns + "body_frames", t);
        CHECK_THROWS((void)std::make_shared<serpent::Frontend>(), "no base_link frame");
    } else if (k == 1) {
        shim::set_param(ns + "optimisation/factors/stereo", true);
        shim::set_param(ns + (s.boolean() ? "mdc/translation" : "mdc/rotation"), false);
        CHECK_THROWS((void)std::make_shared<serpent::Frontend>(), "stereo without motion distortion correction");
    } else if (k == 2) {
        shim::set_param(ns + "barometer/noise/overwrite", true); shim::set_param(ns + "barometer/noise/barometer", 0.0);
        CHECK_THROWS((void)std::make_shared<serpent::Frontend>(), "barometer noise of zero");
    } else if (k == 3) {
        shim::set_param(ns + "imu/noise/overwrite", true); shim::set_param(ns + (s.boolean() ? "imu/noise/accelerometer" : "imu/noise/gyroscope"), 0.0);
        CHECK_THROWS((void)std::make_shared<serpent::Frontend>(), "IMU noise of zero");
    } else {
        serpent::Frontend node;
        pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"x", {F::FLOAT32}}, {"y", {F::FLOAT32}}, {"z", {F::FLOAT32}}, {"t", {F::FLOAT32}}});
        c.width = 0; c.row_step = 0; c.data.clear();
        CHECK_THROWS(shim::inject(ns + "formatter/formatted_pointcloud", c), "empty cloud");
    }
    s.nontrivial();
    s.note() << k << " " << s.draw(1000);
}
