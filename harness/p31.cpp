// P31: the assembled programs track a simulated robot end to end, with the shipped configurations, under any schedule.
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <pcl/point_types.h>
#include <sensor_msgs/CameraInfo.h>
#include <sensor_msgs/FluidPressure.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/Imu.h>
#include <serpent/ImuBiases.h>
#include <serpent/PoseGraph.h>
#include <std_srvs/Empty.h>

#include <fstream>

#include "fibers.hpp"
#include "gen.hpp"
#include "yaml_lite.hpp"

int serpent_node_main(int, char**);
int serpent_frontend_main(int, char**);
int serpent_backend_main(int, char**);

namespace {
typedef XmlRpc::XmlRpcValue X;
const int64_t T0 = 1600000000LL * 1000000000LL;
ros::Time stamp(int64_t ns) { ros::Time t; t.fromNSec(static_cast<uint64_t>(ns)); return t; }

// ------------------------------------------------------------------ the simulated robot
struct Trajectory {
    Eigen::Vector3d p0, v0, amp, freq;
    Eigen::Matrix3d R0;
    Eigen::Vector3d axis;      // of the body rotation, in the body frame
    double rate{0}, wobble{0}, wfreq{1};
    double angle(double t) const { return rate * t + wobble * (1 - std::cos(wfreq * t)); }
    double omega(double t) const { return rate + wobble * wfreq * std::sin(wfreq * t); }
    double alpha(double t) const { return wobble * wfreq * wfreq * std::cos(wfreq * t); }
    Eigen::Vector3d position(double t) const {
        Eigen::Vector3d p = p0 + v0 * t;
        for (int k = 0; k < 3; ++k) p[k] += amp[k] * (1 - std::cos(freq[k] * t));
        return p;
    }
    Eigen::Vector3d velocity(double t) const {
        Eigen::Vector3d v = v0;
        for (int k = 0; k < 3; ++k) v[k] += amp[k] * freq[k] * std::sin(freq[k] * t);
        return v;
    }
    Eigen::Vector3d acceleration(double t) const {
        Eigen::Vector3d a;
        for (int k = 0; k < 3; ++k) a[k] = amp[k] * freq[k] * freq[k] * std::cos(freq[k] * t);
        return a;
    }
    Eigen::Matrix3d rotation(double t) const { return R0 * gen::rodrigues(axis * angle(t)); }
    Eigen::Matrix4d pose(double t) const {
        Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
        T.block<3, 3>(0, 0) = rotation(t);
        T.block<3, 1>(0, 3) = position(t);
        return T;
    }
};

struct World {
    Trajectory tr;
    Eigen::Matrix4d B_I = Eigen::Matrix4d::Identity(), B_L = Eigen::Matrix4d::Identity(), B_BL = Eigen::Matrix4d::Identity();
    std::string body_id{"base_link"}, base_link_id{"base_link"}, lidar_id{"lidar"}, map_id{"map"};
    double gravity{9.81};
    bool ned{true};
    bool ouster{true}, range_field{true}, timed{true};
    bool barometer{true};
    bool registration{true};
    bool pressure_variance{false};
    int clouds{6};
    int removed{0};               // clouds dropped by the configuration before the first one used
    int64_t period_ns{100000000}, sweep_ns{90000000}, imu_ns{5000000};
    int64_t imu_offset_ns{0};
    int64_t imu_delay_ns{0}, barometer_delay_ns{0}, cloud_delay_ns{20000000};  // from measurement to arrival
    Eigen::Vector3d accel_bias = Eigen::Vector3d::Zero(), gyro_bias = Eigen::Vector3d::Zero();
    double baro_bias{0};
    std::vector<Eigen::Vector3d> landmarks;
    int64_t start(int k) const { return T0 + k * period_ns; }
    // Trajectory time: zero at the start of the first cloud that is used; the robot rests before it.
    double time(int64_t ns) const { return std::max<double>(0.0, static_cast<double>(ns - start(removed)) * 1e-9); }
    bool resting(int64_t ns) const { return ns < start(removed); }
};

Eigen::Matrix4d inv(const Eigen::Matrix4d& T) { return gen::inverse4(T); }

sensor_msgs::Imu imu_at(const World& w, int64_t ns) {
    const double t = w.time(ns);
    const bool rest = w.resting(ns);
    const Eigen::Matrix3d R_WB = w.tr.rotation(t);
    const Eigen::Matrix3d R_BI = w.B_I.block<3, 3>(0, 0);
    const Eigen::Vector3d r = w.B_I.block<3, 1>(0, 3);
    const Eigen::Vector3d om = rest ? Eigen::Vector3d::Zero().eval() : (w.tr.axis * w.tr.omega(t)).eval();
    const Eigen::Vector3d al = rest ? Eigen::Vector3d::Zero().eval() : (w.tr.axis * w.tr.alpha(t)).eval();
    const Eigen::Vector3d a_W = rest ? Eigen::Vector3d::Zero().eval() : w.tr.acceleration(t);
    const Eigen::Vector3d a_B = R_WB.transpose() * (a_W + Eigen::Vector3d(0, 0, w.gravity)) + al.cross(r) + om.cross(om.cross(r));
    const Eigen::Vector3d f = R_BI.transpose() * a_B + w.accel_bias;
    const Eigen::Vector3d g = R_BI.transpose() * om + w.gyro_bias;
    Eigen::Matrix3d O = R_WB * R_BI;
    if (w.ned) O = Eigen::Vector3d(1, -1, -1).asDiagonal() * O;
    const Eigen::Quaterniond q(O);
    sensor_msgs::Imu m;
    m.header.stamp = stamp(ns);
    m.header.frame_id = "imu";
    m.orientation.w = q.w(); m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z();
    m.angular_velocity.x = g[0]; m.angular_velocity.y = g[1]; m.angular_velocity.z = g[2];
    m.linear_acceleration.x = f[0]; m.linear_acceleration.y = f[1]; m.linear_acceleration.z = f[2];
    for (int k = 0; k < 3; ++k) { m.orientation_covariance[4 * k] = 1e-6; m.angular_velocity_covariance[4 * k] = 1e-6; m.linear_acceleration_covariance[4 * k] = 1e-6; }
    return m;
}

template<typename T> void put(std::vector<uint8_t>& d, std::size_t at, T v) { std::memcpy(d.data() + at, &v, sizeof v); }

// The points seen by a LiDAR that sweeps while the robot moves.
sensor_msgs::PointCloud2 cloud_at(const World& w, int k) {
    sensor_msgs::PointCloud2 m;
    m.header.stamp = stamp(w.start(k));
    m.header.frame_id = "os_sensor";
    auto field = [&](const std::string& n, uint8_t type, std::size_t size) {
        sensor_msgs::PointField f;
        f.name = n; f.datatype = type; f.count = 1; f.offset = m.point_step;
        m.fields.push_back(f);
        m.point_step += size;
        return static_cast<std::size_t>(f.offset);
    };
    const std::size_t ox = field("x", 7, 4), oy = field("y", 7, 4), oz = field("z", 7, 4), oi = field("intensity", 7, 4);
    std::size_t ot = 0, orr = 0;
    const std::size_t n = w.landmarks.size();
    if (w.ouster) {
        ot = field("t", 6, 4); orr = field("range", 6, 4);
    } else {
        if (w.timed) ot = field("time", 7, 4);
        if (w.range_field) orr = field("range", 7, 4);
    }
    m.height = 1; m.width = n; m.row_step = n * m.point_step; m.is_dense = true;
    m.data.assign(m.row_step, 0);
    for (std::size_t i = 0; i < n; ++i) {
        const int64_t tau = w.timed || w.ouster ? (n > 1 ? w.sweep_ns * static_cast<int64_t>(i) / static_cast<int64_t>(n - 1) : 0) : 0;
        const Eigen::Matrix4d T = w.tr.pose(w.time(w.start(k) + tau)) * w.B_L;
        const Eigen::Vector4d p = inv(T) * Eigen::Vector4d(w.landmarks[i][0], w.landmarks[i][1], w.landmarks[i][2], 1.0);
        const std::size_t at = i * m.point_step;
        put<float>(m.data, at + ox, static_cast<float>(p[0]));
        put<float>(m.data, at + oy, static_cast<float>(p[1]));
        put<float>(m.data, at + oz, static_cast<float>(p[2]));
        put<float>(m.data, at + oi, 1.0f);
        const double range = p.head<3>().norm();
        if (w.ouster) {
            put<uint32_t>(m.data, at + ot, static_cast<uint32_t>(tau));
            put<uint32_t>(m.data, at + orr, static_cast<uint32_t>(std::lround(range * 1000)));
        } else {
            if (w.timed) put<float>(m.data, at + ot, static_cast<float>(tau * 1e-9));
            if (w.range_field) put<float>(m.data, at + orr, static_cast<float>(range));
        }
    }
    return m;
}

sensor_msgs::FluidPressure pressure_at(const World& w, int64_t ns) {
    const double h = w.tr.position(w.time(ns)).z() + w.baro_bias;
    sensor_msgs::FluidPressure m;
    m.header.stamp = stamp(ns);
    m.header.frame_id = "barometer";
    m.fluid_pressure = 1000.0 * 101.29 * std::pow((15.04 - 0.00649 * h + 273.1) / 288.08, 5.256);  // Pa
    m.variance = 1e-4;
    return m;
}

Eigen::Vector3d direction(pbt::Src& s) {
    Eigen::Vector3d v(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1));
    return v.norm() < 1e-2 ? Eigen::Vector3d::UnitX() : v.normalized();
}

void set_frame(X& f, const Eigen::Matrix4d& T) {
    const Eigen::Quaterniond q(Eigen::Matrix3d(T.block<3, 3>(0, 0)));
    X t, r;
    for (int k = 0; k < 3; ++k) t[std::string(1, "xyz"[k])] = T(k, 3);
    r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z();
    f["translation"] = t;
    f["rotation"] = r;
}

void param(const std::string& n, const X& v) { shim::set_param("/serpent/" + n, v); }

void scatter(pbt::Src& s, World& w, int n, double spacing) {
    uint64_t r = s.draw(~0ULL >> 1) + 1;  // the scene comes from one choice, so that cases stay small
    auto unit = [&] { return static_cast<double>(pbt::splitmix(r) >> 11) / 9007199254740992.0; };
    const Eigen::Vector3d c = w.tr.p0;
    for (int tries = 0; static_cast<int>(w.landmarks.size()) < n && tries < 200 * n; ++tries) {
        const double az = 2 * M_PI * unit(), el = (unit() - 0.5) * 1.6, rr = 4.0 + 11.0 * unit();
        const Eigen::Vector3d p = c + rr * Eigen::Vector3d(std::cos(az) * std::cos(el), std::sin(az) * std::cos(el), std::sin(el));
        bool ok = true;
        for (const auto& q : w.landmarks) if ((p - q).norm() < spacing) { ok = false; break; }
        if (ok) w.landmarks.push_back(p);
    }
}

void draw_motion(pbt::Src& s, World& w, bool from_rest) {
    Trajectory& t = w.tr;
    t.p0 = s.boolean() ? Eigen::Vector3d::Zero().eval() : Eigen::Vector3d(s.uniform(-50, 50), s.uniform(-50, 50), s.uniform(-20, 20));
    t.v0 = from_rest || s.chance(1, 4) ? Eigen::Vector3d::Zero().eval() : (direction(s) * s.uniform(0, 0.8)).eval();
    t.amp.setZero();
    t.freq.setOnes();
    for (int k = 0; k < 3; ++k) {
        t.freq[k] = s.uniform(1.0, 4.0);
        t.amp[k] = s.uniform(-0.6, 0.6) / (t.freq[k] * t.freq[k]);  // acceleration up to 0.6 m/s2 per axis
    }
    t.axis = direction(s);
    t.rate = from_rest || s.chance(1, 4) ? 0.0 : s.uniform(-0.6, 0.6);
    t.wfreq = s.uniform(1.0, 4.0);
    t.wobble = s.uniform(-0.5, 0.5) / (t.wfreq * t.wfreq);
    t.R0 = gen::rodrigues(direction(s) * s.uniform(0, s.boolean() ? 3.0 : 0.5));
}

// ------------------------------------------------------------------ running the programs
struct Event {
    int64_t arrival;
    int order;
    std::function<void()> send;
};

struct Options {
    bool random{false};        // callbacks of different subscriptions interleave at random
    bool split{false};         // frontend and backend programs
    int threads{4};
    bool map_service{true};
    bool concurrent_services{false};  // services are called while the robot drives
    std::vector<Event> more;          // other sensor messages
};


std::vector<Event> sensor_events(const World& w) {
    std::vector<Event> e;
    const int64_t begin = w.start(0) - 4 * w.imu_ns + w.imu_offset_ns, end = w.start(w.clouds - 1) + w.sweep_ns + 300000000LL;
    for (int64_t t = begin; t <= end; t += w.imu_ns) e.push_back({t + w.imu_delay_ns, 0, [&w, t] { shim::publish("/serpent/input/imu", imu_at(w, t)); }});
    for (int k = 0; k < w.clouds; ++k) e.push_back({w.start(k) + w.sweep_ns + w.cloud_delay_ns, 2, [&w, k] { shim::publish("/serpent/input/pointcloud", cloud_at(w, k)); }});
    if (w.barometer)
        for (int64_t t = w.start(0) - 33000000; t <= end; t += 40000000) e.push_back({t + w.barometer_delay_ns, 1, [&w, t] { shim::publish("/serpent/input/barometer", pressure_at(w, t)); }});
    std::stable_sort(e.begin(), e.end(), [](const Event& a, const Event& b) { return a.arrival != b.arrival ? a.arrival < b.arrival : a.order < b.order; });
    return e;
}

void run_programs(pbt::Src& s, const World& w, const Options& o) {
    uint64_t frontend_end = 0;
    shim::bus().forward = true;
    auto simulate = [&]() {
        fibers::Scheduler sched(s, o.random);
        if (o.split) sched.add_program(frontend_end, o.threads);
        sched.add_program(~0ULL, o.threads);
        auto events = sensor_events(w);
        events.insert(events.end(), o.more.begin(), o.more.end());
        std::stable_sort(events.begin(), events.end(), [](const Event& a, const Event& b) { return a.arrival < b.arrival; });
        auto service = [](const char* name) {
            std_srvs::Empty::Request q;
            std_srvs::Empty::Response r;
            CHECK(shim::call(name, q, r), "the service failed: ", name);
        };
        for (const auto& e : events) {
            // A cloud is sent when the last one has been taken up: a robot that falls behind drops clouds.
            if (e.order == 2)
                sched.run_until([&] { return !sched.waiting("/serpent/formatter/formatted_pointcloud") && !sched.waiting("/serpent/input/pointcloud"); });
            ros::Time::clock() = stamp(e.arrival);
            e.send();
            sched.collect();
            if (o.concurrent_services && w.registration && s.chance(1, 8)) {
                const char* name = s.boolean() ? "/serpent/publish_map" : "/serpent/publish_pose_graph";
                sched.call(name, [service, name] { service(name); });
            }
            if (o.random) sched.run_some(); else sched.run_idle();
        }
        sched.run_idle();
        if (o.more.empty()) CHECK(!sched.stuck(), "the programs stopped making progress: ", sched.describe());
        if (o.map_service && w.registration) {
            for (const char* name : {"/serpent/publish_map", "/serpent/publish_pose_graph"}) sched.call(name, [service, name] { service(name); });
            sched.run_idle();
        }
        shim::bus().forward = false;
        ros::shutdown();
        sched.finish();
    };
    char name[] = "serpent";
    char* argv[] = {name, nullptr};
    if (!o.split) {
        shim::Bus::on_wait() = simulate;
        serpent_node_main(1, argv);
    } else {
        shim::Bus::on_wait() = [&] {
            frontend_end = shim::bus().next_id;
            shim::Bus::on_wait() = simulate;
            serpent_backend_main(1, argv);
        };
        serpent_frontend_main(1, argv);
    }
}

// ------------------------------------------------------------------ oracles
Eigen::Matrix4d matrix(const geometry_msgs::Pose& p) {
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    T.block<3, 3>(0, 0) = Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z).normalized().toRotationMatrix();
    T.block<3, 1>(0, 3) = Eigen::Vector3d(p.position.x, p.position.y, p.position.z);
    return T;
}
double worst_t = 0, worst_r = 0;
void close(const Eigen::Matrix4d& got, const Eigen::Matrix4d& expected, double tol_t, double tol_r, const std::string& what) {
    const double dt = (got.block<3, 1>(0, 3) - expected.block<3, 1>(0, 3)).norm();
    const double dr = gen::angle_between(got.block<3, 3>(0, 0), expected.block<3, 3>(0, 0));
    worst_t = std::max(worst_t, dt);
    worst_r = std::max(worst_r, dr);
    CHECK(dt <= tol_t, what, ": off by ", dt, " m");
    CHECK(dr <= tol_r, what, ": off by ", dr, " rad");
}

struct Tolerance {
    double t{0.012}, r{0.007}, vel{0.04}, fast_t{0.035}, fast_r{0.01};
};

void check_outputs(const World& w, const Tolerance& tol) {
    const int poses = w.clouds - w.removed - 1;
    worst_t = worst_r = 0;
    const auto paths = shim::captured<nav_msgs::Path>("/serpent/output/path");
    CHECK(!paths.empty(), "no path was published");
    const auto& path = paths.back();
    CHECK(static_cast<int>(path.poses.size()) == poses, "path of ", path.poses.size(), " poses after ", w.clouds, " clouds (", w.removed, " removed)");
    CHECK(path.header.frame_id == w.map_id, "path in frame ", path.header.frame_id);
    auto truth = [&](int64_t ns) { return w.tr.pose(w.time(ns)); };
    for (int k = 0; k < poses; ++k) {
        const int64_t ns = w.start(k + w.removed);
        CHECK(path.poses[k].header.stamp == stamp(ns), "pose ", k, " at ", path.poses[k].header.stamp, " expected ", stamp(ns));
        close(matrix(path.poses[k].pose), truth(ns), tol.t, tol.r, pbt::cat("pose ", k, " of the path"));
    }
    const auto odom = shim::captured<nav_msgs::Odometry>("/serpent/optimisation/odometry");
    CHECK(static_cast<int>(odom.size()) >= poses, odom.size(), " optimised odometry messages for ", poses, " states");
    for (const auto& m : odom) {
        const int64_t ns = static_cast<int64_t>(m.header.stamp.toNSec());
        close(matrix(m.pose.pose), truth(ns), tol.t, tol.r, "optimised odometry");
        const Eigen::Vector3d v(m.twist.twist.linear.x, m.twist.twist.linear.y, m.twist.twist.linear.z);
        const double dv = (v - w.tr.velocity(w.time(ns))).norm();
        CHECK(dv <= tol.vel, "optimised velocity off by ", dv);
        CHECK(m.header.frame_id == w.map_id && m.child_frame_id == w.body_id, "optimised odometry from ", m.header.frame_id, " to ", m.child_frame_id);
    }
    // Pose of base_link, as a message and as a transform
    const auto out = shim::captured<geometry_msgs::PoseWithCovarianceStamped>("/serpent/output/pose");
    CHECK(static_cast<int>(out.size()) >= poses, out.size(), " output poses for ", poses, " states");
    for (const auto& m : out) {
        close(matrix(m.pose.pose), truth(static_cast<int64_t>(m.header.stamp.toNSec())) * w.B_BL, tol.t, tol.r, "output pose");
        CHECK(m.header.frame_id == w.map_id, "output pose in frame ", m.header.frame_id);
    }
    CHECK(shim::bus().tf.size() == out.size(), shim::bus().tf.size(), " transforms for ", out.size(), " poses");
    for (const auto& a : shim::bus().tf) {
        const auto& m = std::any_cast<const geometry_msgs::TransformStamped&>(a);
        geometry_msgs::Pose p;
        p.position.x = m.transform.translation.x; p.position.y = m.transform.translation.y; p.position.z = m.transform.translation.z;
        p.orientation = m.transform.rotation;
        close(matrix(p), truth(static_cast<int64_t>(m.header.stamp.toNSec())) * w.B_BL, tol.t, tol.r, "broadcast transform");
        CHECK(m.header.frame_id == w.map_id && m.child_frame_id == w.base_link_id, "transform from ", m.header.frame_id, " to ", m.child_frame_id);
    }
    // IMU-rate odometry
    const auto fast = shim::captured<nav_msgs::Odometry>("/serpent/output/odometry");
    CHECK(!fast.empty(), "no odometry at the rate of the IMU");
    for (const auto& m : fast) {
        const int64_t ns = static_cast<int64_t>(m.header.stamp.toNSec());
        close(matrix(m.pose.pose), truth(ns), tol.fast_t, tol.fast_r, "odometry at the rate of the IMU");
        CHECK(m.header.frame_id == w.map_id && m.child_frame_id == w.body_id, "odometry from ", m.header.frame_id, " to ", m.child_frame_id);
    }
    if (w.registration) {
        // Registration: the motion between clouds
        const auto reg = shim::captured<geometry_msgs::PoseWithCovarianceStamped>("/serpent/registration/transform");
        CHECK(static_cast<int>(reg.size()) == poses - 1, reg.size(), " registrations for ", poses, " states");
        for (const auto& m : reg) {
            const int64_t ns = static_cast<int64_t>(m.header.stamp.toNSec());
            close(matrix(m.pose.pose), inv(truth(ns - w.period_ns)) * truth(ns), tol.t, tol.r, "registration");
        }
        // The map: every point is a landmark, and every landmark is there
        const auto maps = shim::captured<pcl::PointCloud<pcl::PointNormal>>("/serpent/output/global_map");
        if (!maps.empty()) {
            const auto& map = maps.back();
            CHECK(map.header.frame_id == w.map_id, "map in frame ", map.header.frame_id);
            CHECK(map.size() >= w.landmarks.size(), "map of ", map.size(), " points for ", w.landmarks.size(), " landmarks");
            std::vector<char> seen(w.landmarks.size(), 0);
            for (const auto& p : map) {
                std::size_t best = 0;
                double d = 1e9;
                for (std::size_t i = 0; i < w.landmarks.size(); ++i) {
                    const double di = (w.landmarks[i] - Eigen::Vector3d(p.x, p.y, p.z)).norm();
                    if (di < d) { d = di; best = i; }
                }
                CHECK(d <= 2 * tol.t + 15 * tol.r, "map point ", p.x, " ", p.y, " ", p.z, " is ", d, " m from any landmark");
                seen[best] = 1;
            }
            for (std::size_t i = 0; i < seen.size(); ++i) CHECK(seen[i], "landmark ", i, " of ", seen.size(), " is not in the map");
            const auto graphs = shim::captured<serpent::PoseGraph>("/serpent/output/pose_graph");
            CHECK(!graphs.empty() && !graphs.back().clouds.empty() && graphs.back().clouds.size() == graphs.back().poses.size(), "pose graph");
            for (const auto& p : graphs.back().poses)
                close(matrix(p.pose.pose), truth(static_cast<int64_t>(p.header.stamp.toNSec())) * w.B_L, 2 * tol.t, 2 * tol.r, "pose graph");
        }
    }
}

// ------------------------------------------------------------------ configurations
void draw_robot(pbt::Src& s, World& w) {
    auto placed = [&](double reach) {
        Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
        if (s.chance(3, 4)) {
            T.block<3, 3>(0, 0) = gen::rodrigues(direction(s) * s.uniform(0, 3.1));
            T.block<3, 1>(0, 3) = direction(s) * s.uniform(0, reach);
        }
        return T;
    };
    w.B_I = placed(0.05);
    w.B_L = placed(0.8);
    X root, body, frames, imu, lidar, stereo;
    set_frame(imu, w.B_I);
    set_frame(stereo, Eigen::Matrix4d::Identity());
    if (s.boolean()) { w.lidar_id = "os_lidar"; lidar["frame_id"] = w.lidar_id; }
    frames["imu"] = imu;
    frames["stereo"] = stereo;
    std::string name = "base_link";
    if (s.boolean()) {
        // The robot's body is not its base_link; the LiDAR hangs from the base_link
        name = "body";
        w.body_id = s.boolean() ? "robot_body" : "body";
        if (w.body_id != name) body["frame_id"] = w.body_id;
        w.B_BL = placed(0.5);
        X bl, inner;
        set_frame(bl, w.B_BL);
        set_frame(lidar, inv(w.B_BL) * w.B_L);
        inner["lidar"] = lidar;
        bl["frames"] = inner;
        frames["base_link"] = bl;
        s.label("body other than base_link");
    } else {
        if (s.boolean()) { w.base_link_id = w.body_id = "chassis"; body["frame_id"] = w.body_id; }
        set_frame(lidar, w.B_L);
        frames["lidar"] = lidar;
    }
    body["frames"] = frames;
    root[name] = body;
    param("body_frames", root);
}

void draw_configuration(pbt::Src& s, World& w, Tolerance& tol, int& threads) {
    param("optimisation/factors/stereo", false);
    w.barometer = s.boolean();
    param("optimisation/factors/barometer", w.barometer);
    param("barometer/noise/overwrite", s.boolean());
    param("barometer/noise/barometer", 0.05);
    w.ned = s.boolean();
    if (!w.ned || s.boolean()) param("imu/reference_frame", std::string(w.ned ? "NED" : "NWU"));
    w.gravity = s.pick({9.81, 9.78, 9.83, 3.71});
    if (w.gravity != 9.81) param("gravity", w.gravity);
    if (s.boolean()) { w.map_id = "world"; param("map_frame_id", w.map_id); }
    const Trajectory& t = w.tr;
    for (int k = 0; k < 3; ++k) {
        const std::string a(1, "xyz"[k]);
        if (t.p0[k] != 0) param("pose/position/" + a, t.p0[k]);
        if (t.v0[k] != 0) param("velocity/linear/" + a, t.v0[k]);
    }
    // LiDAR
    w.ouster = s.boolean();
    w.range_field = w.ouster || s.boolean();
    param("pointcloud_type", std::string(w.ouster ? "OUSTER" : "CUSTOM"));
    param("range_filter/enabled", w.range_field && s.boolean());
    param("range_filter/min", 0.1);
    param("range_filter/max", 1000);
    param("voxel_grid_filter/enabled", s.boolean());
    param("voxel_grid_filter/leaf_size", s.pick({0.1, 0.25}));
    if (s.chance(1, 4)) { param("first_pointcloud_removal/enabled", true); w.removed = 1; w.clouds += 1; s.label("first cloud removed"); }
    if (s.chance(1, 4)) { param("time_field_filter/enabled", true); param("time_field_filter/max", 0.11); }
    param("normal_estimation/k", static_cast<int>(s.integer(5, 30)));
    param("normal_estimation/method", std::string("knn"));
    // IMU
    if (s.boolean()) {
        param("imu/noise/overwrite", true);
        param("imu/noise/accelerometer", 1e-2);
        param("imu/noise/gyroscope", 1e-3);
    }
    // Registration
    const std::string cov = s.pick({std::string("CONSTANT"), std::string("CENSI"), std::string("LLS")});
    param("registration_covariance/method", cov);
    param("registration_covariance/constant/rotation", 2e-3);
    param("registration_covariance/constant/translation", 5e-3);
    const std::string pc = cov == "CENSI" ? s.pick({std::string("CONSTANT"), std::string("RANGE"), std::string("RANGE_BIAS")}) : std::string("CONSTANT");
    // Noise along the ray does not turn a point-to-point registration: its covariance is singular, and is refused.
    const bool plane = pc != "CONSTANT" || s.boolean();
    const bool linear = cov == "LLS" || s.boolean();
    const std::string model = std::string(plane ? "POINT_TO_PLANE" : "POINT_TO_POINT") + (linear ? "_LINEARISED" : "_NONLINEAR");
    param("registration_covariance/model", model);
    param("registration_covariance/point_covariance/method", pc);
    param("registration_covariance/point_covariance/constant", 0.02);
    param("registration_covariance/point_covariance/range_noise", 0.02);
    param("registration_covariance/point_covariance/range_bias_noise", 0.01);
    for (const std::string m : {"s2s", "s2m"}) {
        param(m + "/method", s.pick({std::string("icp"), std::string("fast_gicp"), std::string("fast_gicp_st")}));
        param(m + "/base/maximum_iterations", 30);
        param(m + "/base/max_correspondence_distance", 0.5);
        param(m + "/base/transformation_epsilon", 1e-6);
        param(m + "/base/euclidean_fitness_epsilon", 1e-8);
    }
    const bool s2m = s.boolean();
    param("s2m/enabled", s2m);
    param("mapping/frame_extraction_method", std::string(s.boolean() ? "NEARBY" : "PAST"));
    param("mapping/frame_extraction_number", static_cast<int>(s.integer(1, 10)));
    param("mapping/distance_threshold", s.pick({0.0, 0.05, 0.2}));
    param("mapping/rotation_threshold", 0.1);
    param("mapping/voxel_grid_filter/enabled_local", s.boolean());
    param("mapping/voxel_grid_filter/enabled_global", s.boolean());
    param("isam2/optimization", std::string(s.boolean() ? "GaussNewton" : "Dogleg"));
    param("isam2/factorization", std::string(s.boolean() ? "CHOLESKY" : "QR"));
    param("isam2/relinearize_skip", static_cast<int>(s.integer(1, 10)));
    param("isam2/relinearize_threshold", s.pick({0.1, 0.01}));
    if (s.chance(1, 4)) { param("debug/registration/publish_clouds", true); param("debug/registration/publish_clouds_alt", s.boolean()); }
    threads = s.pick({4, 4, 8});
    param("threads", threads);
    s.label(cov);
    s.label(s2m ? "scan to map" : "scan to scan");
    s.label(w.barometer ? "barometer" : "no barometer");
    int factors = static_cast<int>(s.draw(7)); if (const char* e = std::getenv("P31_F")) factors = std::atoi(e);
    if (factors == 6) {
        // Dead reckoning between the states
        w.registration = false;
        param("optimisation/factors/registration", false);
        tol.t = 0.05; tol.r = 0.02; tol.vel = 0.1; tol.fast_t = 0.08; tol.fast_r = 0.03;
        s.label("IMU only");
    } else if (factors == 7) {
        param("optimisation/factors/imu", false);
        tol.t = 0.05; tol.r = 0.03; tol.vel = 0.25; tol.fast_t = 0.1; tol.fast_r = 0.05;
        s.label("registration only");
    }
    if (s.chance(1, 4) && factors < 6) {
        w.accel_bias = direction(s) * 0.02;
        w.gyro_bias = direction(s) * 0.002;
        param("prior_noise/accelerometer_bias", 0.05);
        param("prior_noise/gyroscope_bias", 0.005);
        tol.vel += 0.03;
        s.label("biased IMU");
    }
}
}

#ifndef P32
PROPERTY(simulated_drive, 4000, 60000, "four or more states along a curved path") {
    shim::bus().reset();
    World w;
    Tolerance tol;
    Options o;
    w.clouds = static_cast<int>(s.size(3, 8));
    draw_motion(s, w, false);
    draw_robot(s, w);
    draw_configuration(s, w, tol, o.threads);
    if (w.removed) { w.tr.v0.setZero(); w.tr.rate = 0; for (const char* a : {"x", "y", "z"}) param(std::string("velocity/linear/") + a, 0.0); }
    w.sweep_ns = static_cast<int64_t>(s.integer(40000000, 100000000));
    w.imu_ns = s.pick({2500000, 5000000});
    w.imu_offset_ns = -static_cast<int64_t>(s.draw(2400000));
    w.baro_bias = s.uniform(-30, 30);
    if (s.boolean()) {
        w.imu_delay_ns = static_cast<int64_t>(s.draw(400)) * 1000000;
        w.barometer_delay_ns = static_cast<int64_t>(s.draw(400)) * 1000000;
        w.cloud_delay_ns = static_cast<int64_t>(s.draw(200)) * 1000000;
        if (w.imu_delay_ns > 150000000) s.label("late IMU");
    }
    scatter(s, w, static_cast<int>(s.integer(60, 120)), 1.3);
    o.random = s.boolean();
    o.split = s.boolean();
    s.label(o.random ? "random schedule" : "first in first out");
    s.label(o.split ? "frontend and backend programs" : "one program");
    run_programs(s, w, o);
    check_outputs(w, tol);
    s.note() << w.clouds << " clouds of " << w.landmarks.size() << " points; worst error " << worst_t << " m " << worst_r << " rad";
    s.nontrivial(w.clouds - w.removed >= 5);
}

// ------------------------------------------------------------------ the shipped configurations
namespace {
struct Shipped { std::string package, robot, mission; };
const std::vector<Shipped>& shipped() {
    static const std::vector<Shipped> all{
        {"serpent", "robot_default", "mission_default"},
        {"snowboard", "snowboard", "ice_rink"}, {"snowboard", "snowboard", "mammoth_outdoor"}, {"snowboard", "snowboard", "tunnel"},
        {"ue4_missions", "ue4_platform", "icy_surface"},
        {"simulator_prcp_missions", "eels_head", "surface_ellipse_1"}, {"simulator_prcp_missions", "eels_head", "surface_ellipse_2"},
        {"simulator_prcp_missions", "eels_head", "surface_spiral_1"}, {"simulator_prcp_missions", "eels_head", "surface_spiral_2"},
        {"simulator_prcp_missions", "eels_head", "surface_spiral_2_noiseless"}, {"simulator_prcp_missions", "eels_head", "surface_stationary_1"},
        {"simulator_prcp_missions", "eels_head", "surface_traverse_1"}};
    return all;
}
// As serpent/launch/load_parameters.launch does; returns the names of the values
std::vector<std::string> load_shipped(const Shipped& c) {
    const char* repo = std::getenv("VERIF_REPO");
    const std::string root = std::string(repo ? repo : "/repo") + "/";
    std::vector<std::string> leaves;
    const bool own = c.package == "serpent";
    const std::string dir = root + (own ? "serpent/config/" : c.package + "/config/serpent/");
    yaml_lite::load_into("/serpent", dir + c.robot + ".yaml", &leaves);
    yaml_lite::load_into("/serpent", dir + (own ? "" : "mission/") + c.mission + ".yaml", &leaves);
    for (const std::string n : {"filter", "format", "normal_estimation", "tuning", "debug"})
        yaml_lite::load_into("/serpent", dir + n + (own ? "_default" : "") + ".yaml", &leaves);
    param("threads", 4);
    leaves.push_back("/serpent/threads");
    return leaves;
}
const X* configured(const std::string& n) {
    const auto it = shim::bus().params.find("/serpent/" + n);
    return it == shim::bus().params.end() ? nullptr : &it->second;
}
double number(const X* v, double otherwise) {
    if (!v) return otherwise;
    X c = *v;
    return c.getType() == X::TypeInt ? static_cast<double>(static_cast<int>(c)) : static_cast<double>(c);
}
std::string text(const X* v, const std::string& otherwise) { if (!v) return otherwise; X c = *v; return static_cast<std::string>(c); }
bool flag(const X* v) { if (!v) return false; X c = *v; return static_cast<bool>(c); }
Eigen::Matrix4d frame(const std::string& n) {
    const std::string at = "body_frames/base_link/frames/" + n + "/";
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    Eigen::Quaterniond q(number(configured(at + "rotation/w"), 1), number(configured(at + "rotation/x"), 0), number(configured(at + "rotation/y"), 0), number(configured(at + "rotation/z"), 0));
    T.block<3, 3>(0, 0) = q.normalized().toRotationMatrix();
    for (int k = 0; k < 3; ++k) T(k, 3) = number(configured(at + "translation/" + std::string(1, "xyz"[k])), 0);
    return T;
}
// A robot that fits the configuration
void fit(pbt::Src& s, World& w) {
    w.B_I = frame("imu");
    w.B_L = frame("lidar");
    w.lidar_id = text(configured("body_frames/base_link/frames/lidar/frame_id"), "lidar");
    w.body_id = w.base_link_id = text(configured("body_frames/base_link/frame_id"), "base_link");
    w.map_id = text(configured("map_frame_id"), "map");
    w.gravity = number(configured("gravity"), 9.81);
    w.ned = text(configured("imu/reference_frame"), "NED") == "NED";
    w.ouster = text(configured("pointcloud_type"), "OUSTER") == "OUSTER";
    w.range_field = true;
    w.barometer = flag(configured("optimisation/factors/barometer"));
    if (flag(configured("first_pointcloud_removal/enabled"))) { w.removed = 1; w.clouds += 1; }
    for (int k = 0; k < 3; ++k) {
        const std::string a(1, "xyz"[k]);
        w.tr.p0[k] = number(configured("pose/position/" + a), 0);
        w.tr.v0[k] = number(configured("velocity/linear/" + a), 0);
    }
    if (w.removed) { w.tr.v0.setZero(); w.tr.rate = 0; }
    w.sweep_ns = static_cast<int64_t>(s.integer(40000000, 99000000));
    w.imu_ns = s.pick({2500000, 5000000});
    w.imu_offset_ns = -static_cast<int64_t>(s.draw(2400000));
    w.baro_bias = s.uniform(-30, 30);
}
}

PROPERTY(shipped_configurations, 300, 6000, "four or more states along a curved path") {
    shim::bus().reset();
    const Shipped& c = s.pick(shipped());
    load_shipped(c);
    // There are no cameras in this simulation
    param("optimisation/factors/stereo", false);
    World w;
    Tolerance tol;
    Options o;
    w.clouds = static_cast<int>(s.size(3, 8));
    draw_motion(s, w, false);
    fit(s, w);
    scatter(s, w, static_cast<int>(s.integer(80, 120)), 1.3);
    o.random = s.boolean();
    o.split = s.boolean();
    s.label(c.package);
    s.label(o.random ? "random schedule" : "first in first out");
    s.label(o.split ? "frontend and backend programs" : "one program");
    run_programs(s, w, o);
    check_outputs(w, tol);
    s.note() << c.mission << ": " << w.clouds << " clouds of " << w.landmarks.size() << " points; worst error " << worst_t << " m " << worst_r << " rad";
    s.nontrivial(w.clouds - w.removed >= 5);
}

namespace {
// The options under which a value of the configuration files is documented to apply
void choose(const std::string& key) {
    auto is = [&](const std::string& prefix) { return key.rfind(prefix, 0) == 0; };
    for (std::size_t at = key.find('/'); at != std::string::npos; at = key.find('/', at + 1)) {
        const std::string sw = key.substr(0, at) + "/enabled";
        if (configured(sw)) param(sw, true);
    }
    for (const std::string m : {"s2s/", "s2m/"})
        for (const std::string k : {"icp", "gicp", "lsq", "fast_gicp", "fast_vgicp", "ndt"})
            if (is(m + k + "/")) param(m + "method", std::string(k == "lsq" ? "fast_gicp" : k));
    if (is("mapping/voxel_grid_filter/")) param("mapping/voxel_grid_filter/enabled_local", true);
    if (key == "normal_estimation/k") param("normal_estimation/method", std::string("knn"));
    if (key == "normal_estimation/radius") param("normal_estimation/method", std::string("radius"));
    if (is("imu/noise/")) param("imu/noise/overwrite", true);
    if (is("barometer/") || key == "prior_noise/barometer_bias") { param("barometer/noise/overwrite", true); param("optimisation/factors/barometer", true); }
    if (is("isam2/gauss_newton_params/")) param("isam2/optimization", std::string("GaussNewton"));
    if (is("isam2/dogleg_params/")) param("isam2/optimization", std::string("Dogleg"));
    if (is("registration_covariance/")) param("registration_covariance/method", std::string(is("registration_covariance/constant/") ? "CONSTANT" : "CENSI"));
    if (is("registration_covariance/point_covariance/")) {
        const std::string n = key.substr(key.rfind('/') + 1);
        param("registration_covariance/point_covariance/method", std::string(n == "range_noise" ? "RANGE" : n == "range_bias_noise" ? "RANGE_BIAS" : "CONSTANT"));
    }
    if (is("stereo") || is("debug/stereo/") || is("debug/optimisation/publish_stereo_points")) param("optimisation/factors/stereo", true);
    const std::string robust = "stereo_factors/robust/";
    if (is(robust) && key.find('/', robust.size()) != std::string::npos) param(robust + "type", key.substr(robust.size(), key.find('/', robust.size()) - robust.size()));
    for (const std::string d : {"fast", "gftt", "orb", "sift"})
        if (is("stereo_tracking/detector/" + d + "/")) {
            std::string upper = d;
            for (char& ch : upper) ch = static_cast<char>(std::toupper(ch));
            param("stereo_tracking/detector/type", upper);
        }
    if (key == "stereo_tracking/stereo_keypoint_matcher/ratio") param("stereo_tracking/stereo_keypoint_matcher/matching_filter", std::string("RATIO_TEST"));
    if (key == "debug/registration/publish_clouds_alt") param("debug/registration/publish_clouds", true);
}
}

namespace {
void first_images() {
    sensor_msgs::Image im;
    im.header.stamp = stamp(T0);
    im.header.frame_id = "camera";
    im.width = im.height = im.step = 64;
    im.encoding = "mono8";
    uint64_t r = 7;
    for (int i = 0; i < 64 * 64; ++i) im.data.push_back(static_cast<uint8_t>(pbt::splitmix(r)));
    sensor_msgs::CameraInfo info;
    info.header = im.header;
    info.width = info.height = 64;
    info.K[0] = info.K[4] = info.P[0] = info.P[5] = 60;
    info.K[2] = info.K[5] = info.P[2] = info.P[6] = 32;
    info.K[8] = info.P[10] = 1;
    shim::inject("/serpent/stereo/left/camera_info", info);
    info.P[3] = -6;
    shim::inject("/serpent/stereo/right/camera_info", info);
    shim::inject("/serpent/stereo/left/image", im);
    shim::inject("/serpent/stereo/right/image", im);
}
}

PROPERTY(shipped_parameters, 4000, 40000, "always") {
    shim::bus().reset();
    const Shipped& c = s.pick(shipped());
    const auto leaves = load_shipped(c);
    std::string full = leaves[s.draw(leaves.size() - 1)];
    if (full.rfind("/serpent/body_frames/", 0) == 0) full = "/serpent/body_frames";  // read as a whole
    const std::string key = full.substr(9);
    s.note() << c.mission << ": " << key;
    if (key.rfind("debug/optimisation/on_crash/", 0) == 0) throw pbt::Discard();  // read when the optimiser fails: see P21
    choose(key);
    // Values of the first state are read when there is one
    bool lazy = false;
    for (const std::string p : {"prior_noise/", "pose/", "velocity/", "imu/"}) lazy = lazy || key.rfind(p, 0) == 0;
    Options o;
    o.split = s.boolean();
    const bool images = key.rfind("stereo_tracking/stereo_distance_filter/", 0) == 0;
    s.label(lazy ? "read with the first state" : images ? "read with the first images" : "read at start-up");
    World w;
    if (lazy) {
        param("optimisation/factors/stereo", false);
        o.map_service = false;
        w.clouds = 3;
        draw_motion(s, w, false);
        fit(s, w);
        scatter(s, w, 80, 1.3);
        run_programs(s, w, o);
    } else {
        char name[] = "serpent";
        char* argv[] = {name, nullptr};
        if (images) {
            param("stereo_mask/enabled", false);
            shim::Bus::on_wait() = first_images;
        }
        if (o.split) {
            if (!images) shim::Bus::on_wait() = [] {};
            serpent_frontend_main(1, argv);
            shim::node_ok() = true;
            serpent_backend_main(1, argv);
        } else {
            serpent_node_main(1, argv);
        }
    }
    CHECK(shim::bus().read.count(full), "the shipped value ", key, " of ", c.package, " (", c.mission, ") has no effect: nothing reads it");
    s.nontrivial();
}
#endif
