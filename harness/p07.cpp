// P07: IMU frame changes, interpolation and the IMU nodes.
#include <eigen_ros/eigen_ros.hpp>
#include <imu_tools/imu_analysis.hpp>
#include <imu_tools/imu_transform.hpp>

#include "gen.hpp"

namespace {
ros::Time ns(uint64_t t) { ros::Time r; r.fromNSec(t); return r; }
Eigen::Quaterniond quat(pbt::Src& s, Eigen::Matrix3d* R = nullptr) {
    const Eigen::Matrix3d M = gen::rotation(s);
    if (R) *R = M;
    Eigen::Quaterniond q(M);
    if (s.boolean()) q.coeffs() = -q.coeffs();
    return q;
}
eigen_ros::Imu imu(pbt::Src& s) {
    eigen_ros::Imu m(quat(s), gen::vec3(s, 3), gen::vec3(s, 10), gen::spd<3>(s), gen::spd<3>(s), gen::spd<3>(s), ns(1000000000ULL + s.draw(4000000000ULL)), s.pick({std::string("imu"), std::string("b")}));
    if (s.chance(1, 6)) { m.orientation = Eigen::Quaterniond(0, 0, 0, 0); s.label("unknown orientation"); }
    return m;
}
bool unknown(const Eigen::Quaterniond& q) { return q.w() == 0 && q.x() == 0 && q.y() == 0 && q.z() == 0; }
Eigen::Matrix3d rot(const Eigen::Quaterniond& q) {
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    Eigen::Matrix3d R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return R;
}
void same_orientation(const Eigen::Quaterniond& q, const Eigen::Matrix3d& R, const std::string& what) {
    CHECK(std::abs(q.norm() - 1) < 1e-9, what, ": not a unit quaternion");
    CHECK(gen::max_diff(rot(q), R) < 1e-8, what, ": ", gen::str(rot(q)), " expected ", gen::str(R));
}
void close(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b, const std::string& what) { CHECK(gen::max_diff(a, b) < 1e-9 * gen::scale_of(b), what, ": ", gen::str(a), " expected ", gen::str(b)); }
void close(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const std::string& what) { CHECK(gen::max_diff(a, b) < 1e-9 * gen::scale_of(b), what, ": ", gen::str(a), " expected ", gen::str(b)); }
}

PROPERTY(change_frame, 15000, 300000, "rotation not identity") {
    const eigen_ros::Imu m = imu(s);
    Eigen::Matrix3d R;  // current to new frame
    const Eigen::Quaterniond q = quat(s, &R);
    eigen_ros::Imu c = m;
    c.change_frame(q, q.inverse());
    // vectors measured in the current frame are re-expressed in the new one
    close(c.angular_velocity, R.transpose() * m.angular_velocity, "angular velocity");
    close(c.linear_acceleration, R.transpose() * m.linear_acceleration, "linear acceleration");
    close(c.angular_velocity_covariance, R.transpose() * m.angular_velocity_covariance * R, "angular velocity covariance");
    close(c.linear_acceleration_covariance, R.transpose() * m.linear_acceleration_covariance * R, "linear acceleration covariance");
    if (unknown(m.orientation)) CHECK(unknown(c.orientation), "unknown orientation");
    else {
        same_orientation(c.orientation, rot(m.orientation) * R, "orientation");
        // a direction measured before and after points the same way in the fixed frame
        const Eigen::Vector3d v = rot(m.orientation) * m.linear_acceleration, w = rot(c.orientation) * c.linear_acceleration;
        close(w, v, "acceleration in the fixed frame");
    }
    // the orientation covariance keeps its size (the convention of its frame is not decided here)
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> e0(m.orientation_covariance), e1(c.orientation_covariance);
    close(Eigen::Vector3d(e1.eigenvalues()), Eigen::Vector3d(e0.eigenvalues()), "orientation covariance");
    CHECK(c.timestamp == m.timestamp && c.frame == m.frame, "time and frame name");
    // undone by the inverse
    eigen_ros::Imu b = c;
    b.change_frame(q.inverse(), q);
    close(b.angular_velocity, m.angular_velocity, "back: angular velocity");
    close(b.linear_acceleration, m.linear_acceleration, "back: linear acceleration");
    close(b.angular_velocity_covariance, m.angular_velocity_covariance, "back: covariance");
    close(b.linear_acceleration_covariance, m.linear_acceleration_covariance, "back: covariance");
    close(b.orientation_covariance, m.orientation_covariance, "back: orientation covariance");
    if (!unknown(m.orientation)) same_orientation(b.orientation, rot(m.orientation), "back: orientation");
    // in two steps
    Eigen::Matrix3d R2;
    const Eigen::Quaterniond q2 = quat(s, &R2);
    eigen_ros::Imu two = c, one = m;
    two.change_frame(q2, q2.inverse());
    one.change_frame(q * q2, (q * q2).inverse());
    close(two.angular_velocity, one.angular_velocity, "two steps");
    close(two.linear_acceleration_covariance, one.linear_acceleration_covariance, "two steps");
    if (!unknown(m.orientation)) same_orientation(two.orientation, rot(one.orientation), "two steps");
    s.nontrivial(gen::angle_between(R, Eigen::Matrix3d::Identity()) > 1e-9);
    s.note() << "rotation " << gen::str(R);
}

// A measurement built from its first n parts only: what is left out is an identity orientation, zero vectors and
// covariances, time zero and no frame.
PROPERTY(partial_measurement, 2000, 20000, "some parts given and some left out") {
    const eigen_ros::Imu m = imu(s);
    const int n = static_cast<int>(s.integer(0, 8));
    using eigen_ros::Imu;
    const Imu r = n == 0 ? Imu() : n == 1 ? Imu(m.orientation) : n == 2 ? Imu(m.orientation, m.angular_velocity) : n == 3 ? Imu(m.orientation, m.angular_velocity, m.linear_acceleration)
        : n == 4 ? Imu(m.orientation, m.angular_velocity, m.linear_acceleration, m.orientation_covariance)
        : n == 5 ? Imu(m.orientation, m.angular_velocity, m.linear_acceleration, m.orientation_covariance, m.angular_velocity_covariance)
        : n == 6 ? Imu(m.orientation, m.angular_velocity, m.linear_acceleration, m.orientation_covariance, m.angular_velocity_covariance, m.linear_acceleration_covariance)
        : n == 7 ? Imu(m.orientation, m.angular_velocity, m.linear_acceleration, m.orientation_covariance, m.angular_velocity_covariance, m.linear_acceleration_covariance, m.timestamp) : m;
    const Eigen::Vector3d v0 = Eigen::Vector3d::Zero();
    const Eigen::Matrix3d c0 = Eigen::Matrix3d::Zero();
    CHECK(r.orientation.coeffs() == (n > 0 ? m.orientation : Eigen::Quaterniond(1, 0, 0, 0)).coeffs(), "orientation");
    CHECK(r.angular_velocity == (n > 1 ? m.angular_velocity : v0) && r.linear_acceleration == (n > 2 ? m.linear_acceleration : v0), "rates");
    CHECK(r.orientation_covariance == (n > 3 ? m.orientation_covariance : c0) && r.angular_velocity_covariance == (n > 4 ? m.angular_velocity_covariance : c0) && r.linear_acceleration_covariance == (n > 5 ? m.linear_acceleration_covariance : c0), "covariances");
    CHECK(r.timestamp == (n > 6 ? m.timestamp : ns(0)) && r.frame == (n > 7 ? m.frame : std::string()), "time and frame");
    s.nontrivial(n > 0 && n < 8);
    s.note() << n << " parts given";
}

PROPERTY(interpolation, 20000, 400000, "strictly between the measurements") {
    eigen_ros::Imu a = imu(s), b = imu(s);
    const uint64_t t1 = 1000000000ULL * s.draw(1700000000ULL) + s.draw(999999999ULL);
    const uint64_t span = s.pick({uint64_t(0), uint64_t(1), uint64_t(10), uint64_t(10000000), uint64_t(999999999), uint64_t(5000000000ULL)});
    const uint64_t len = span ? s.draw(span - 1) + 1 : 0;
    a.timestamp = ns(t1);
    b.timestamp = ns(t1 + len);
    const uint64_t off = s.boolean() ? s.draw(len) : s.pick({uint64_t(0), len, len / 2});
    const eigen_ros::Imu r = eigen_ros::interpolate(a, b, ns(t1 + off));
    CHECK(r.timestamp == ns(t1 + off), "timestamp");
    if (len == 0) {
        s.label("equal timestamps");
        CHECK(r.angular_velocity == a.angular_velocity && r.orientation.coeffs() == a.orientation.coeffs(), "equal timestamps");
    } else {
        const double f = static_cast<double>(off) / static_cast<double>(len);
        close(r.angular_velocity, a.angular_velocity + f * (b.angular_velocity - a.angular_velocity), "angular velocity");
        close(r.linear_acceleration, a.linear_acceleration + f * (b.linear_acceleration - a.linear_acceleration), "linear acceleration");
        if (unknown(a.orientation) || unknown(b.orientation)) CHECK(unknown(r.orientation), "unknown orientation");
        else {
            CHECK(std::abs(r.orientation.norm() - 1) < 1e-6, "unit quaternion");
            const Eigen::Matrix3d A = rot(a.orientation), B = rot(b.orientation), C = rot(r.orientation);
            const double whole = gen::angle_between(A, B);
            if (off == 0) CHECK(gen::max_diff(C, A) < 1e-6, "orientation at the first");
            if (off == len) CHECK(gen::max_diff(C, B) < 1e-6, "orientation at the second");
            // spherical: the same arc, split in proportion
            CHECK(std::abs(gen::angle_between(A, C) - f * whole) < 1e-5 && std::abs(gen::angle_between(C, B) - (1 - f) * whole) < 1e-5, "angle ", gen::angle_between(A, C), " and ", gen::angle_between(C, B), " of ", whole, " at ", f);
        }
        const bool first = off * 2 <= len, tie = f > 0.499999 && f < 0.500001;
        const eigen_ros::Imu& n = first ? a : b;
        if (!tie) CHECK(r.angular_velocity_covariance == n.angular_velocity_covariance && r.linear_acceleration_covariance == n.linear_acceleration_covariance && r.orientation_covariance == n.orientation_covariance && r.frame == n.frame, "covariances of the nearer measurement");
    }
    CHECK_THROWS(eigen_ros::interpolate(a, b, ns(t1 + len + 1 + s.draw(2000000000ULL))), "after the second");
    if (t1 > 0) CHECK_THROWS(eigen_ros::interpolate(a, b, ns(t1 - 1 - s.draw(std::min<uint64_t>(t1 - 1, 2000000000ULL)))), "before the first");
    if (len) CHECK_THROWS(eigen_ros::interpolate(b, a, ns(t1 + off)), "measurements in the wrong order");
    s.nontrivial(off > 0 && off < len);
    s.note() << off << " of " << len << " ns";
}

namespace {
sensor_msgs::Imu message(pbt::Src& s) { return eigen_ros::to_ros<sensor_msgs::Imu>(imu(s)); }
XmlRpc::XmlRpcValue row_major(const Eigen::Matrix3d& R) { XmlRpc::XmlRpcValue v; for (int i = 0; i < 9; ++i) v[i] = R(i / 3, i % 3); return v; }
Eigen::Quaterniond q_of(const geometry_msgs::Quaternion& q) { return Eigen::Quaterniond(q.w, q.x, q.y, q.z); }
}

PROPERTY(transform_node, 6000, 120000, "rotation configured") {
    shim::bus().reset();
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    const bool configured = s.chance(4, 5);
    if (configured) { R = gen::rotation(s); shim::set_param("/node/rotation", row_major(R)); }
    const bool overwrite = s.boolean();
    if (overwrite || s.boolean()) { shim::set_param("/node/overwrite_frame", overwrite); shim::set_param("/node/new_frame", std::string("nwu")); }
    std::string in = "imu", out = "imu_transformed";
    if (s.boolean()) { in = "a/imu"; out = "b/imu"; shim::set_param("/node/imu_topic", in); shim::set_param("/node/imu_transformed_topic", out); }
    ImuTransform node;
    const int n = static_cast<int>(s.integer(1, 4));
    std::vector<sensor_msgs::Imu> sent;
    for (int i = 0; i < n; ++i) { sent.push_back(message(s)); CHECK(shim::inject("/node/" + in, sent.back()) == 1, "subscription"); }
    const auto got = shim::captured<sensor_msgs::Imu>("/node/" + out);
    CHECK(got.size() == sent.size(), "published ", got.size(), " of ", sent.size());
    for (int i = 0; i < n; ++i) {
        CHECK(got[i].header.stamp == sent[i].header.stamp && got[i].header.frame_id == (overwrite ? "nwu" : sent[i].header.frame_id), "header");
        CHECK(got[i].angular_velocity == sent[i].angular_velocity && got[i].linear_acceleration == sent[i].linear_acceleration && got[i].angular_velocity_covariance == sent[i].angular_velocity_covariance && got[i].linear_acceleration_covariance == sent[i].linear_acceleration_covariance, "rates and their covariances");
        const Eigen::Quaterniond q = q_of(sent[i].orientation);
        if (unknown(q)) CHECK(unknown(q_of(got[i].orientation)), "unknown orientation");
        else same_orientation(q_of(got[i].orientation), R * rot(q), "orientation");
    }
    s.nontrivial(configured);
    s.note() << n << " messages, rotation " << gen::str(R);
}

PROPERTY(analysis_node, 3000, 60000, "additional transform configured") {
    shim::bus().reset();
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    Eigen::Vector3d t = Eigen::Vector3d::Zero();
    const bool apply = s.boolean();
    std::string fixed = "fixed", moved = "fixed";
    if (apply) shim::set_param("/node/apply_transform", true);
    if (s.boolean()) { fixed = "map"; shim::set_param("/node/fixed_frame", fixed); }
    if (s.boolean()) { moved = "sensor"; shim::set_param("/node/transformed_frame", moved); }
    if (s.chance(3, 4)) { R = gen::rotation(s); shim::set_param("/node/rotation", row_major(R)); }
    if (s.chance(3, 4)) { t = gen::vec3(s, 5); XmlRpc::XmlRpcValue v; for (int i = 0; i < 3; ++i) v[i] = t[i]; shim::set_param("/node/translation", v); }
    std::ostringstream sink;
    std::streambuf* old = std::cerr.rdbuf(sink.rdbuf());
    struct Restore { std::streambuf* b; ~Restore() { std::cerr.rdbuf(b); } } restore{old};
    ImuAnalysis node;
    const int n = static_cast<int>(s.integer(1, 3));
    for (int i = 0; i < n; ++i) {
        const sensor_msgs::Imu m = message(s);
        shim::bus().tf.clear();
        shim::inject("/node/imu", m);
        CHECK(shim::bus().tf.size() == (apply ? 2u : 1u), "broadcast ", shim::bus().tf.size());
        const auto a = std::any_cast<geometry_msgs::TransformStamped>(shim::bus().tf[0]);
        CHECK(a.header.stamp == m.header.stamp && a.header.frame_id == fixed && a.child_frame_id == m.header.frame_id, "frames of the measured orientation");
        CHECK(a.transform.rotation == m.orientation && a.transform.translation == geometry_msgs::Vector3(), "measured orientation");
        if (apply) {
            const auto b = std::any_cast<geometry_msgs::TransformStamped>(shim::bus().tf[1]);
            CHECK(b.header.stamp == m.header.stamp && b.header.frame_id == fixed && b.child_frame_id == moved, "frames of the additional transform");
            CHECK(b.transform.translation.x == t[0] && b.transform.translation.y == t[1] && b.transform.translation.z == t[2], "translation");
            const Eigen::Quaterniond q = q_of(m.orientation);
            if (!unknown(q)) same_orientation(q_of(b.transform.rotation), rot(q) * R, "additional transform");
        }
    }
    s.nontrivial(apply);
    s.note() << n << " messages";
}

// The angles reported for an orientation turn about x, then the new y, then the new z.
PROPERTY(angles, 2000, 40000, "rotation not identity") {
    eigen_ros::Imu m = imu(s);
    const Eigen::Matrix3d R = gen::rotation(s);
    m.orientation = Eigen::Quaterniond(R);
    if (s.boolean()) m.orientation.coeffs() = -m.orientation.coeffs();
    const Eigen::Vector3d a = m.rpy(), b = eigen_ros::rpy(m.orientation);
    CHECK(a == b, "member and function differ");
    const Eigen::Matrix3d got = (Eigen::AngleAxisd(a[0], Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(a[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(a[2], Eigen::Vector3d::UnitZ())).toRotationMatrix();
    CHECK(gen::max_diff(got, R) < 1e-6, "angles ", a.transpose());
    s.nontrivial(gen::angle_between(R, Eigen::Matrix3d::Identity()) > 1e-6);
}
