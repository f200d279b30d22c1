// P26: navigation tools: combined transforms, dead reckoning and odometry rebroadcast.
#include <gtsam/navigation/CombinedImuFactor.h>
#include <navigation_tools/combine_transforms.hpp>
#include <navigation_tools/integrate_imu.hpp>
#include <navigation_tools/odometry_to_tf.hpp>
#include <geometry_msgs/PoseWithCovarianceStamped.h>

#include "gen.hpp"

namespace {
typedef XmlRpc::XmlRpcValue X;
ros::Time stamp(int64_t ns) { ros::Time t; t.fromNSec(static_cast<uint64_t>(ns)); return t; }
template<typename V> void set(V& v, const Eigen::Vector3d& x) { v.x = x[0]; v.y = x[1]; v.z = x[2]; }
void set(geometry_msgs::Quaternion& q, const Eigen::Quaterniond& x) { q.w = x.w(); q.x = x.x(); q.y = x.y(); q.z = x.z(); }
template<typename V> Eigen::Vector3d vec(const V& v) { return {v.x, v.y, v.z}; }
Eigen::Matrix3d rot(const geometry_msgs::Quaternion& q) { return Eigen::Quaterniond(q.w, q.x, q.y, q.z).normalized().toRotationMatrix(); }
void same(const geometry_msgs::Pose& p, const Eigen::Matrix4d& T, double tol, const std::string& what) {
    const Eigen::Vector3d t = T.block<3, 1>(0, 3);
    CHECK((vec(p.position) - t).norm() <= tol * (1 + t.norm()), what, ": position ", vec(p.position).transpose(), " expected ", t.transpose());
    const Eigen::Matrix3d R = T.block<3, 3>(0, 0);
    CHECK((rot(p.orientation) - R).norm() <= 10 * tol, what, ": orientation");
    CHECK(pbt::near(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z).norm(), 1.0, 1e-6), what, ": quaternion not normalised");
}
}

PROPERTY(combined_transforms, 3000, 60000, "three or more transforms with rotation") {
    shim::bus().reset();
    const int type = static_cast<int>(s.draw(2));
    const char* names[] = {"TransformStamped", "PoseStamped", "PoseWithCovarianceStamped"};
    if (type != 0 || s.boolean()) shim::set_param("/node/transform_type", std::string(names[type]));
    CombineTransforms node;
    const int n = static_cast<int>(s.size(1, 12));
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    std::vector<Eigen::Matrix4d> history;
    std::vector<ros::Time> times;
    int64_t t = 1600000000LL * 1000000000LL + static_cast<int64_t>(s.draw(2000000000ULL));
    for (int i = 0; i < n; ++i) {
        const Eigen::Isometry3d d = gen::isometry(s);
        Eigen::Quaterniond q(d.rotation());
        if (s.boolean()) q.coeffs() = -q.coeffs();
        t += static_cast<int64_t>(s.draw(1000000000ULL));
        std::size_t got = 0;
        if (type == 0) {
            geometry_msgs::TransformStamped m;
            m.header.stamp = stamp(t); m.header.frame_id = "a"; m.child_frame_id = "b";
            set(m.transform.translation, d.translation()); set(m.transform.rotation, q);
            got = shim::inject("/node/input", m);
        } else if (type == 1) {
            geometry_msgs::PoseStamped m;
            m.header.stamp = stamp(t); m.header.frame_id = "a";
            set(m.pose.position, d.translation()); set(m.pose.orientation, q);
            got = shim::inject("/node/input", m);
        } else {
            geometry_msgs::PoseWithCovarianceStamped m;
            m.header.stamp = stamp(t); m.header.frame_id = "a";
            set(m.pose.pose.position, d.translation()); set(m.pose.pose.orientation, q);
            const auto C = gen::spd<6>(s);
            for (int k = 0; k < 36; ++k) m.pose.covariance[k] = C(k / 6, k % 6);
            got = shim::inject("/node/input", m);
        }
        CHECK(got == 1, "not subscribed to the ", names[type], " input");
        T = T * d.matrix();
        history.push_back(T);
        times.push_back(stamp(t));
        const auto o = shim::captured<nav_msgs::Odometry>("/node/odometry");
        const auto p = shim::captured<nav_msgs::Path>("/node/path");
        CHECK(o.size() == history.size() && p.size() == history.size(), "one odometry and one path per transform, got ", o.size(), " and ", p.size(), " after ", i + 1);
        same(o.back().pose.pose, T, 1e-9 * (i + 1), "combined pose");
        CHECK(o.back().header.stamp == times.back(), "odometry timestamp");
        CHECK(p.back().header.stamp == times.back() && p.back().poses.size() == history.size(), "path has ", p.back().poses.size(), " poses");
        for (std::size_t k = 0; k < history.size(); ++k) {
            same(p.back().poses[k].pose, history[k], 1e-9 * (k + 1), "path pose");
            CHECK(p.back().poses[k].header.stamp == times[k], "path timestamp of pose ", k);
        }
    }
    s.label(names[type]);
    s.nontrivial(n >= 3);
    s.note() << n << " of " << names[type];
}

PROPERTY(dead_reckoning, 4000, 80000, "five or more samples") {
    shim::bus().reset();
    const bool displaced = s.boolean();
    Eigen::Matrix4d B = Eigen::Matrix4d::Identity();  // pose of the IMU in the body
    X imu, frames, body, root;
    imu["comment"] = 1;
    if (displaced) {
        const Eigen::Isometry3d b = gen::isometry(s, 1.0);
        B = b.matrix();
        const Eigen::Quaterniond q(b.rotation());
        X tr, r;
        for (int k = 0; k < 3; ++k) tr[std::string(1, "xyz"[k])] = b.translation()[k];
        r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z();
        imu["translation"] = tr; imu["rotation"] = r;
        s.label("displaced sensor");
    }
    frames["imu"] = imu;
    body["frames"] = frames;
    root["base_link"] = body;
    shim::set_param("/node/body_frames", root);
    double g = 9.81;
    if (s.boolean()) { g = s.uniform(1.0, 12.0); shim::set_param("/node/gravity", g); }
    auto noise = [&](const std::string& n) {
        double v = 1e-3;
        if (s.boolean()) { v = s.uniform(1e-4, 1e-1); shim::set_param("/node/imu/noise/" + n, v); }
        return v * v;
    };
    auto params = gtsam::PreintegrationCombinedParams::MakeSharedU(g);
    params->accelerometerCovariance = noise("accelerometer") * gtsam::I_3x3;
    params->gyroscopeCovariance = noise("gyroscope") * gtsam::I_3x3;
    params->integrationCovariance = noise("integration") * gtsam::I_3x3;
    params->biasAccOmegaInt = noise("integration_bias") * gtsam::I_6x6;
    params->biasAccCovariance = noise("accelerometer_bias") * gtsam::I_3x3;
    params->biasOmegaCovariance = noise("gyroscope_bias") * gtsam::I_3x3;
    const Eigen::Matrix3d RB = B.block<3, 3>(0, 0);
    params->body_P_sensor = gtsam::Pose3(gtsam::Rot3(RB), B.block<3, 1>(0, 3));
    Eigen::Vector3d p0 = Eigen::Vector3d::Zero(), v0 = Eigen::Vector3d::Zero();
    for (int k = 0; k < 3; ++k) {
        const std::string a(1, "xyz"[k]);
        if (s.boolean()) { p0[k] = s.uniform(-100, 100); shim::set_param("/node/pose/position/" + a, p0[k]); }
        if (s.boolean()) { v0[k] = s.uniform(-5, 5); shim::set_param("/node/velocity/linear/" + a, v0[k]); }
    }
    IntegrateImu node;

    const int n = static_cast<int>(s.size(2, 25));
    int64_t t = 1600000000LL * 1000000000LL + static_cast<int64_t>(s.draw(2000000000ULL));
    gtsam::PreintegratedCombinedMeasurements pim(params);
    Eigen::Matrix3d R0 = Eigen::Matrix3d::Identity(), R;
    Eigen::Vector3d p, v;
    std::vector<Eigen::Matrix4d> history;
    std::vector<ros::Time> times;
    double elapsed = 0, bound = 0;
    for (int i = 0; i < n; ++i) {
        sensor_msgs::Imu m;
        m.header.stamp = stamp(t);
        const bool oriented = s.chance(3, 4);
        Eigen::Matrix3d RI = gen::rotation(s, false);
        if (oriented) set(m.orientation, Eigen::Quaterniond(RI));
        else set(m.orientation, Eigen::Quaterniond(0, 0, 0, 0));
        const Eigen::Vector3d a = gen::vec3(s, 4.0) + (s.boolean() ? Eigen::Vector3d(0, 0, g) : Eigen::Vector3d::Zero());
        const Eigen::Vector3d w = gen::vec3(s, 1.5);
        set(m.linear_acceleration, a); set(m.angular_velocity, w);
        const auto Cw = gen::spd<3>(s);
        for (int k = 0; k < 9; ++k) m.angular_velocity_covariance[k] = Cw(k / 3, k % 3);
        CHECK(shim::inject("/node/input", m) == 1, "subscription");
        const auto o = shim::captured<nav_msgs::Odometry>("/node/odometry");
        const auto path = shim::captured<nav_msgs::Path>("/node/path");
        if (i == 0) {
            CHECK(o.empty() && path.empty(), "nothing to publish before the second sample");
            if (oriented) { R0 = RI * RB.transpose(); s.label("initial orientation"); }
            R = R0; p = p0; v = v0;
            times.push_back(stamp(t));
        } else {
            const double dt = 1e-9 * static_cast<double>(stamp(t).toNSec() - times.back().toNSec());
            pim.integrateMeasurement(a, w, dt);
            // strap-down kinematics of the body
            const Eigen::Vector3d wb = RB * w, r = B.block<3, 1>(0, 3), ab = RB * a - wb.cross(wb.cross(r));
            const Eigen::Vector3d aw = R * ab - Eigen::Vector3d(0, 0, g);
            p += v * dt + 0.5 * aw * dt * dt;
            v += aw * dt;
            R = R * gen::rodrigues(wb * dt);
            elapsed += dt;
            bound += ab.norm() * wb.norm() * dt * dt + 1e-9;
            const auto e = pim.predict(gtsam::NavState(gtsam::Rot3(R0), p0, v0), gtsam::imuBias::ConstantBias());
            CHECK(o.size() == history.size() + 1 && path.size() == history.size() + 1, "one odometry and path per sample, got ", o.size());
            const auto& q = o.back();
            same(q.pose.pose, e.pose().matrix(), 1e-8, "dead-reckoned pose");
            CHECK((vec(q.pose.pose.position) - p).norm() <= 1e-6 + 3 * bound * (elapsed + 0.01), "strap-down position differs by ", (vec(q.pose.pose.position) - p).norm(), " > ", 3 * bound * (elapsed + 0.01));
            CHECK((rot(q.pose.pose.orientation) - R).norm() <= 1e-6 + 0.05 * elapsed, "strap-down orientation differs by ", (rot(q.pose.pose.orientation) - R).norm());
            const Eigen::Vector3d got = vec(q.twist.twist.linear);
            const double vt = 1e-6 + 3 * bound;
            CHECK((got - v).norm() <= vt || (got - R.transpose() * v).norm() <= vt, "velocity ", got.transpose(), " expected ", v.transpose());
            CHECK((vec(q.twist.twist.angular) - w).norm() < 1e-9 || (vec(q.twist.twist.angular) - wb).norm() < 1e-9, "angular velocity");
            CHECK(q.header.stamp == m.header.stamp, "odometry timestamp");
            const Eigen::Matrix<double, 15, 15> C = pim.preintMeasCov();
            for (int a2 = 0; a2 < 6; ++a2) for (int b2 = 0; b2 < 6; ++b2) {
                const double c = C((a2 + 3) % 6, (b2 + 3) % 6);  // position before orientation in the message
                CHECK(pbt::near(q.pose.covariance[6 * a2 + b2], c, 1e-9 * (1 + std::abs(c))), "pose covariance ", a2, ",", b2);
            }
            history.push_back(e.pose().matrix());
            times.push_back(stamp(t));
            CHECK(path.back().poses.size() == history.size() && path.back().header.stamp == m.header.stamp, "path length");
            for (std::size_t k = 0; k < history.size(); ++k) {
                same(path.back().poses[k].pose, history[k], 1e-8, "path");
                CHECK(path.back().poses[k].header.stamp == times[k + 1], "path timestamps");
            }
        }
        if (s.chance(1, 40)) {  // the same sample again cannot be integrated
            CHECK_THROWS(shim::inject("/node/input", m), "repeated timestamp");
            s.label("repeated timestamp");
            break;
        }
        t += 1000000LL + static_cast<int64_t>(s.draw(14000000ULL));
    }
    s.nontrivial(history.size() >= 4);
    s.note() << history.size() << " intervals over " << elapsed << " s";
}

PROPERTY(odometry_rebroadcast, 5000, 100000, "always") {
    shim::bus().reset();
    OdometryToTf node;
    const int n = static_cast<int>(s.integer(1, 4));
    for (int i = 0; i < n; ++i) {
        nav_msgs::Odometry m;
        m.header.stamp = stamp(static_cast<int64_t>(s.draw(4000000000000000000ULL)));
        m.header.frame_id = s.pick({std::string("map"), std::string("odom"), std::string("")});
        m.child_frame_id = s.pick({std::string("base_link"), std::string("imu")});
        set(m.pose.pose.position, gen::vec3(s, 1e4));
        set(m.pose.pose.orientation, Eigen::Quaterniond(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)));
        set(m.twist.twist.linear, gen::vec3(s, 3));
        shim::bus().tf.clear();
        CHECK(shim::inject("/node/input", m) == 1, "subscription");
        CHECK(shim::bus().tf.size() == 1 && shim::bus().static_tf.empty(), "one transform is broadcast, got ", shim::bus().tf.size());
        const auto t = std::any_cast<geometry_msgs::TransformStamped>(shim::bus().tf[0]);
        CHECK(t.header.stamp == m.header.stamp && t.header.frame_id == m.header.frame_id && t.child_frame_id == m.child_frame_id, "header");
        CHECK(vec(t.transform.translation) == vec(m.pose.pose.position), "translation");
        const auto &a = t.transform.rotation, &b = m.pose.pose.orientation;
        CHECK(a.w == b.w && a.x == b.x && a.y == b.y && a.z == b.z, "rotation");
    }
    s.nontrivial();
    s.note() << n << " messages";
}
