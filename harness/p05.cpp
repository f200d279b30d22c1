// P05: messages and internal geometry types, component by component.
#include <eigen_ros/eigen_ros.hpp>

#include "gen.hpp"

namespace {
typedef gen::Matrix6d M6;
ros::Time stamp(pbt::Src& s) {
    ros::Time t;
    t.sec = static_cast<uint32_t>(s.boolean() ? s.draw(5) : s.draw(4294967295ULL));
    t.nsec = static_cast<uint32_t>(s.boolean() ? s.draw(3) : s.draw(999999999ULL));
    return t;
}
std::string name(pbt::Src& s) { return s.pick({std::string(""), std::string("map"), std::string("base_link"), std::string("lidar frame"), std::string("/odom")}); }
double any(pbt::Src& s) {
    switch (s.draw(9)) {
        case 0: return 0.0;
        case 1: return s.boolean() ? 1e300 : -1e-300;
        case 2: return s.wide(-12, 12);
        default: return s.real(-100, 100);
    }
}
Eigen::Vector3d anyvec(pbt::Src& s) { return Eigen::Vector3d(any(s), any(s), any(s)); }
// Raw quaternion components need not be normalised: conversions copy them.
Eigen::Quaterniond anyquat(pbt::Src& s) {
    switch (s.draw(4)) {
        case 0: return Eigen::Quaterniond(0, 0, 0, 0);
        case 1: return Eigen::Quaterniond(any(s), any(s), any(s), any(s));
        default: { Eigen::Quaterniond q(gen::rotation(s)); if (s.boolean()) q.coeffs() = -q.coeffs(); return q; }
    }
}
template<int N> Eigen::Matrix<double, N, N> anymat(pbt::Src& s) {
    Eigen::Matrix<double, N, N> m;
    if (s.chance(1, 10)) { m.setZero(); return m; }
    const bool distinct = s.boolean();  // every entry different: any mix-up shows
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = distinct ? 1.0 + i * N + j + s.unit() * 0.5 : any(s);
    return m;
}
bool eq(const geometry_msgs::Point& p, const Eigen::Vector3d& v) { return p.x == v[0] && p.y == v[1] && p.z == v[2]; }
bool eq(const geometry_msgs::Vector3& p, const Eigen::Vector3d& v) { return p.x == v[0] && p.y == v[1] && p.z == v[2]; }
bool eq(const geometry_msgs::Quaternion& p, const Eigen::Quaterniond& q) { return p.w == q.w() && p.x == q.x() && p.y == q.y() && p.z == q.z(); }
// Message order: translation (linear) first; internal order: rotation (angular) first.
bool eq(const boost::array<double, 36>& m, const M6& c) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (m[((i + 3) % 6) * 6 + (j + 3) % 6] != c(i, j)) return false;
    return true;
}
bool eq3(const boost::array<double, 9>& m, const Eigen::Matrix3d& c) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (m[i * 3 + j] != c(i, j)) return false;
    return true;
}
bool exact(const eigen_ros::Pose& a, const eigen_ros::Pose& b) { return a.position == b.position && a.orientation.coeffs() == b.orientation.coeffs() && a.covariance == b.covariance; }
bool exact(const eigen_ros::Twist& a, const eigen_ros::Twist& b) { return a.linear == b.linear && a.angular == b.angular && a.covariance == b.covariance; }
eigen_ros::Pose anypose(pbt::Src& s) { return eigen_ros::Pose(anyvec(s), anyquat(s), anymat<6>(s)); }
eigen_ros::Twist anytwist(pbt::Src& s) { return eigen_ros::Twist(anyvec(s), anyvec(s), anymat<6>(s)); }
void fill(pbt::Src& s, geometry_msgs::Pose& m) { m.position.x = any(s); m.position.y = any(s); m.position.z = any(s); m.orientation.w = any(s); m.orientation.x = any(s); m.orientation.y = any(s); m.orientation.z = any(s); }
void fill(pbt::Src& s, geometry_msgs::Transform& m) { m.translation.x = any(s); m.translation.y = any(s); m.translation.z = any(s); m.rotation.w = any(s); m.rotation.x = any(s); m.rotation.y = any(s); m.rotation.z = any(s); }
void fill(pbt::Src& s, geometry_msgs::Vector3& m) { m.x = any(s); m.y = any(s); m.z = any(s); }
template<std::size_t N> void fill(pbt::Src& s, boost::array<double, N>& a) { for (std::size_t i = 0; i < N; ++i) a[i] = any(s); }
void fill(pbt::Src& s, std_msgs::Header& h) { h.seq = static_cast<uint32_t>(s.draw(99)); h.stamp = stamp(s); h.frame_id = name(s); }
Eigen::Matrix3d matrix(const geometry_msgs::Quaternion& q) {
    Eigen::Matrix3d R;
    const double w = q.w, x = q.x, y = q.y, z = q.z;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return R;
}
}

PROPERTY(vectors_and_quaternions, 20000, 400000, "always") {
    const Eigen::Vector3d v = anyvec(s);
    geometry_msgs::Point p;
    eigen_ros::to_ros(p, v);
    CHECK(eq(p, v), "point ", gen::str(v));
    CHECK(eigen_ros::from_ros<Eigen::Vector3d>(p) == v, "point round trip");
    geometry_msgs::Vector3 w;
    eigen_ros::to_ros(w, v);
    CHECK(eq(w, v), "vector ", gen::str(v));
    CHECK(eigen_ros::from_ros<Eigen::Vector3d>(w) == v, "vector round trip");
    const Eigen::Quaterniond q = anyquat(s);
    const auto qm = eigen_ros::to_ros<geometry_msgs::Quaternion>(q);
    CHECK(eq(qm, q), "quaternion");
    CHECK(eigen_ros::from_ros<Eigen::Quaterniond>(qm).coeffs() == q.coeffs(), "quaternion round trip");
    const Eigen::Matrix3d R = gen::rotation(s);
    geometry_msgs::Quaternion rm;
    eigen_ros::to_ros(rm, R);
    CHECK(gen::max_diff(matrix(rm), R) < 1e-9, "matrix to quaternion");
    CHECK(gen::max_diff(eigen_ros::from_ros<Eigen::Matrix3d>(rm), R) < 1e-9, "quaternion to matrix");
    std_msgs::Header h;
    fill(s, h);
    const ros::Time t = stamp(s);
    const std::string f = name(s);
    std_msgs::Header h2 = h;
    eigen_ros::to_ros(h2, t, f);
    CHECK(h2.stamp == t && h2.frame_id == f && h2.seq == h.seq, "header");
    ros::Time t2;
    std::string f2;
    eigen_ros::from_ros(h2, t2, f2);
    CHECK(t2 == t && f2 == f, "header round trip");
    s.nontrivial();
    s.note() << gen::str(v);
}

PROPERTY(poses, 20000, 400000, "covariance not zero") {
    const eigen_ros::Pose pose = anypose(s);
    const ros::Time t = stamp(s);
    const eigen_ros::PoseStamped ps(pose, t);
    CHECK(exact(ps.data, pose) && ps.timestamp == t, "stamped");
    geometry_msgs::PoseWithCovarianceStamped m;
    if (s.boolean()) { fill(s, m.header); fill(s, m.pose.pose); fill(s, m.pose.covariance); }  // reused message
    const auto before = m;
    eigen_ros::to_ros(m, ps);
    CHECK(m.header.stamp == t && m.header.frame_id == before.header.frame_id && m.header.seq == before.header.seq, "header");
    CHECK(eq(m.pose.pose.position, pose.position) && eq(m.pose.pose.orientation, pose.orientation), "pose");
    CHECK(eq(m.pose.covariance, pose.covariance), "covariance ", gen::str(pose.covariance));
    eigen_ros::PoseStamped back(anypose(s), stamp(s));  // reused
    const auto old = back;
    eigen_ros::from_ros(m, back);
    CHECK(exact(back.data, pose) && back.timestamp == t, "round trip");
    eigen_ros::Pose unstamped;
    eigen_ros::from_ros(m.pose, unstamped);
    CHECK(exact(unstamped, pose), "PoseWithCovariance");
    geometry_msgs::PoseWithCovariance pc;
    eigen_ros::to_ros(pc, pose);
    CHECK(pc == m.pose, "PoseWithCovariance");
    // without covariance: it is neither set nor changed
    geometry_msgs::PoseStamped pst;
    fill(s, pst.header);
    const auto hdr = pst.header;
    eigen_ros::to_ros(pst, ps);
    CHECK(pst.pose == m.pose.pose && pst.header.stamp == t && pst.header.frame_id == hdr.frame_id, "PoseStamped");
    back = old;
    eigen_ros::from_ros(pst, back);
    CHECK(back.timestamp == t && exact(back.data, eigen_ros::Pose(pose.position, pose.orientation, old.data.covariance)), "PoseStamped");
    const auto pm = eigen_ros::to_ros<geometry_msgs::Pose>(pose);
    CHECK(pm == m.pose.pose, "Pose");
    unstamped = old.data;
    eigen_ros::from_ros(pm, unstamped);
    CHECK(exact(unstamped, eigen_ros::Pose(pose.position, pose.orientation, old.data.covariance)), "Pose");
    geometry_msgs::TransformStamped tf;
    fill(s, tf.header);
    tf.child_frame_id = name(s);
    const auto tf0 = tf;
    eigen_ros::to_ros(tf, ps);
    CHECK(eq(tf.transform.translation, pose.position) && eq(tf.transform.rotation, pose.orientation), "transform");
    CHECK(tf.header.stamp == t && tf.header.frame_id == tf0.header.frame_id && tf.child_frame_id == tf0.child_frame_id, "transform header");
    back = old;
    eigen_ros::from_ros(tf, back);
    CHECK(back.timestamp == t && exact(back.data, eigen_ros::Pose(pose.position, pose.orientation, old.data.covariance)), "TransformStamped");
    const auto tm = eigen_ros::to_ros<geometry_msgs::Transform>(pose);
    CHECK(tm == tf.transform, "Transform");
    unstamped = old.data;
    eigen_ros::from_ros(tm, unstamped);
    CHECK(exact(unstamped, eigen_ros::Pose(pose.position, pose.orientation, old.data.covariance)), "Transform");
    s.nontrivial(pose.covariance != M6::Zero());
    s.note() << "position " << gen::str(pose.position);
}

// Messages first: message -> internal -> message.
PROPERTY(message_round_trips, 20000, 400000, "always") {
    geometry_msgs::PoseWithCovarianceStamped m;
    fill(s, m.header); fill(s, m.pose.pose); fill(s, m.pose.covariance);
    eigen_ros::PoseStamped p;
    eigen_ros::from_ros(m, p);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) CHECK(p.data.covariance((i + 3) % 6, (j + 3) % 6) == m.pose.covariance[6 * i + j], "entry ", i, " ", j);
    geometry_msgs::PoseWithCovarianceStamped m2;
    m2.header = m.header;
    eigen_ros::to_ros(m2, p);
    CHECK(m2 == m, "PoseWithCovarianceStamped");
    nav_msgs::Odometry o;
    fill(s, o.header); o.child_frame_id = name(s); fill(s, o.pose.pose); fill(s, o.pose.covariance); fill(s, o.twist.twist.linear); fill(s, o.twist.twist.angular); fill(s, o.twist.covariance);
    o.header.seq = 0;
    const auto odom = eigen_ros::from_ros<eigen_ros::Odometry>(o);
    CHECK(eigen_ros::to_ros<nav_msgs::Odometry>(odom) == o, "Odometry");
    sensor_msgs::Imu i;
    fill(s, i.header); i.header.seq = 0;
    i.orientation.w = any(s); i.orientation.x = any(s); i.orientation.y = any(s); i.orientation.z = any(s);
    fill(s, i.angular_velocity); fill(s, i.linear_acceleration);
    fill(s, i.orientation_covariance); fill(s, i.angular_velocity_covariance); fill(s, i.linear_acceleration_covariance);
    CHECK(eigen_ros::to_ros<sensor_msgs::Imu>(eigen_ros::from_ros<eigen_ros::Imu>(i)) == i, "Imu");
    s.nontrivial();
    s.note() << "covariance [0] " << m.pose.covariance[0];
}

PROPERTY(odometry_and_imu, 20000, 400000, "always") {
    const eigen_ros::Odometry o(anypose(s), anytwist(s), stamp(s), name(s), name(s));
    nav_msgs::Odometry m;
    if (s.boolean()) { fill(s, m.header); fill(s, m.pose.pose); fill(s, m.twist.covariance); m.child_frame_id = name(s); }
    eigen_ros::to_ros(m, o);
    CHECK(m.header.stamp == o.timestamp && m.header.frame_id == o.frame && m.child_frame_id == o.child_frame, "frames");
    CHECK(eq(m.pose.pose.position, o.pose.position) && eq(m.pose.pose.orientation, o.pose.orientation) && eq(m.pose.covariance, o.pose.covariance), "pose");
    CHECK(eq(m.twist.twist.linear, o.twist.linear) && eq(m.twist.twist.angular, o.twist.angular) && eq(m.twist.covariance, o.twist.covariance), "twist");
    const auto back = eigen_ros::from_ros<eigen_ros::Odometry>(m);
    CHECK(exact(back.pose, o.pose) && exact(back.twist, o.twist) && back.timestamp == o.timestamp && back.frame == o.frame && back.child_frame == o.child_frame, "round trip");
    CHECK(exact(o.pose_stamped().data, o.pose) && o.pose_stamped().timestamp == o.timestamp, "pose_stamped");
    CHECK(exact(o.twist_stamped().data, o.twist) && o.twist_stamped().timestamp == o.timestamp, "twist_stamped");
    CHECK(o.twist.angular_velocity_covariance() == o.twist.covariance.topLeftCorner(3, 3), "angular covariance");
    CHECK(o.twist.linear_velocity_covariance() == o.twist.covariance.bottomRightCorner(3, 3), "linear covariance");
    eigen_ros::Twist t;
    const M6 kept = anymat<6>(s);
    t.covariance = kept;
    eigen_ros::from_ros(m.twist.twist, t);
    CHECK(t.linear == o.twist.linear && t.angular == o.twist.angular && t.covariance == kept, "Twist");
    CHECK(eigen_ros::to_ros<geometry_msgs::Twist>(o.twist) == m.twist.twist, "Twist");
    const eigen_ros::Imu i(anyquat(s), anyvec(s), anyvec(s), anymat<3>(s), anymat<3>(s), anymat<3>(s), stamp(s), name(s));
    const auto im = eigen_ros::to_ros<sensor_msgs::Imu>(i);
    CHECK(im.header.stamp == i.timestamp && im.header.frame_id == i.frame, "imu header");
    CHECK(eq(im.orientation, i.orientation) && eq(im.angular_velocity, i.angular_velocity) && eq(im.linear_acceleration, i.linear_acceleration), "imu values");
    CHECK(eq3(im.orientation_covariance, i.orientation_covariance) && eq3(im.angular_velocity_covariance, i.angular_velocity_covariance) && eq3(im.linear_acceleration_covariance, i.linear_acceleration_covariance), "imu covariances");
    const auto ib = eigen_ros::from_ros<eigen_ros::Imu>(im);
    CHECK(ib.orientation.coeffs() == i.orientation.coeffs() && ib.angular_velocity == i.angular_velocity && ib.linear_acceleration == i.linear_acceleration && ib.orientation_covariance == i.orientation_covariance &&
          ib.angular_velocity_covariance == i.angular_velocity_covariance && ib.linear_acceleration_covariance == i.linear_acceleration_covariance && ib.timestamp == i.timestamp && ib.frame == i.frame, "imu round trip");
    s.nontrivial();
    s.note() << "frame " << o.frame << " child " << o.child_frame;
}

PROPERTY(rigid_transforms, 20000, 400000, "rotation not identity") {
    const Eigen::Isometry3d T = gen::isometry(s, 50);
    const Eigen::Matrix4d M = T.matrix();
    geometry_msgs::Transform tm, tm4;
    eigen_ros::to_ros(tm, T);
    eigen_ros::to_ros(tm4, M);
    geometry_msgs::Pose pm;
    eigen_ros::to_ros(pm, M);
    const Eigen::Vector3d p = T.translation();
    CHECK(eq(tm.translation, p) && eq(tm4.translation, p) && eq(pm.position, p), "translation");
    for (const auto& q : {tm.rotation, tm4.rotation, pm.orientation}) {
        CHECK(gen::max_diff(matrix(q), T.linear()) < 1e-9, "rotation");
        CHECK(std::abs(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z - 1) < 1e-9, "unit quaternion");
    }
    Eigen::Isometry3d T2 = gen::isometry(s);
    eigen_ros::from_ros(tm, T2);
    CHECK(gen::max_diff(T2.matrix(), M) < 1e-9 * gen::scale_of(M), "Isometry3d round trip");
    Eigen::Matrix4d M2 = Eigen::Matrix4d::Constant(7.0);
    eigen_ros::from_ros(tm4, M2);
    CHECK(gen::max_diff(M2, M) < 1e-9 * gen::scale_of(M), "Matrix4d from Transform");
    M2.setConstant(-3.0);
    eigen_ros::from_ros(pm, M2);
    CHECK(gen::max_diff(M2, M) < 1e-9 * gen::scale_of(M), "Matrix4d from Pose");
    // poses built from transforms, and back
    const M6 cov = anymat<6>(s);
    const eigen_ros::Pose pose(T, cov);
    CHECK(pose.position == p && pose.covariance == cov && gen::max_diff(pose.orientation.toRotationMatrix(), T.linear()) < 1e-9, "Pose of a transform");
    CHECK(gen::max_diff(eigen_ros::to_transform(pose).matrix(), M) < 1e-9 * gen::scale_of(M), "to_transform");
    const Eigen::Matrix3d a = anymat<3>(s), b = anymat<3>(s);
    M6 expect = M6::Zero();
    expect.topLeftCorner(3, 3) = b;
    expect.bottomRightCorner(3, 3) = a;
    CHECK(eigen_ros::Pose(p, pose.orientation, a, b).covariance == expect, "Pose of position and orientation covariance");
    CHECK(eigen_ros::Twist(p, p, a, b).covariance == expect, "Twist of linear and angular covariance");
    s.nontrivial(gen::angle_between(T.linear(), Eigen::Matrix3d::Identity()) > 1e-9);
    s.note() << gen::str(M);
}

PROPERTY(apply_transform, 15000, 300000, "transform and covariance not trivial") {
    const Eigen::Isometry3d A = gen::isometry(s, 20), B = gen::isometry(s, 20);
    const M6 cov = gen::spd<6>(s);
    const eigen_ros::Pose pose(A, cov);
    const Eigen::Matrix4d AB = A.matrix() * B.matrix();
    // first-order: the covariance moves to the frame after the transform by the adjoint of the inverse
    const M6 Ad = gen::adjoint(gen::inverse4(B.matrix()));
    const M6 expect = Ad * cov * Ad.transpose();
    auto same = [&](const eigen_ros::Pose& r, const std::string& what) {
        CHECK(gen::max_diff(eigen_ros::to_transform(r).matrix(), AB) < 1e-8 * gen::scale_of(AB), what, ": ", gen::str(eigen_ros::to_transform(r).matrix()), " expected ", gen::str(AB));
        CHECK(gen::max_diff(r.covariance, expect) < 1e-9 * gen::scale_of(expect), what, " covariance");
    };
    same(eigen_ros::apply_transform(pose, B), "transform");
    same(eigen_ros::apply_transform(pose, eigen_ros::Pose(B, gen::spd<6>(s))), "pose");
    const ros::Time t = stamp(s), t2 = stamp(s);
    const auto ps = eigen_ros::apply_transform(eigen_ros::PoseStamped(pose, t), B);
    same(ps.data, "stamped");
    CHECK(ps.timestamp == t, "stamped time");
    const eigen_ros::Odometry o(pose, anytwist(s), t, "map", "body");
    const auto r = eigen_ros::apply_transform(o, eigen_ros::PoseStamped(eigen_ros::Pose(B), t2));
    same(r.pose, "odometry");
    CHECK(r.timestamp == t2 && r.frame == "map" && r.child_frame == "body" && exact(r.twist, o.twist), "odometry");
    s.nontrivial(gen::max_diff(B.matrix(), Eigen::Matrix4d::Identity()) > 1e-9);
    s.note() << gen::str(B.matrix());
}

namespace {
template<typename A, int R, int C, typename M>
void fixed(pbt::Src& s) {
    Eigen::Matrix<M, R, C> m;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = static_cast<M>(i * C + j + 1) + static_cast<M>(s.integer(0, 1000)) * static_cast<M>(0.0009765625);
    boost::array<A, R * C> a;
    a.assign(-1);
    eigen_ros::to_ros(a, m);
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) CHECK(a[i * C + j] == static_cast<A>(m(i, j)), "entry ", i, " ", j);
    Eigen::Matrix<M, R, C> b;
    b.setZero();
    eigen_ros::from_ros(a, b);
    CHECK(b == m, "array round trip");
}
template<typename Msg, typename StampedMsg, typename S>
void dynamic(pbt::Src& s) {
    typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mx;
    const int n = static_cast<int>(s.integer(0, 9)), k = static_cast<int>(s.integer(0, 9));
    Mx m(n, n), r(n, k);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = static_cast<S>(i * n + j + 0.25 * s.integer(0, 3));
    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) r(i, j) = static_cast<S>(i * k + j);
    Msg msg;
    msg.matrix.assign(s.draw(20), static_cast<S>(9));  // reused
    msg.dimensions = s.draw(5);
    eigen_ros::to_ros(msg, m);
    CHECK(msg.dimensions == static_cast<uint64_t>(n) && msg.matrix.size() == static_cast<std::size_t>(n * n), "dimensions");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(msg.matrix[i * n + j] == m(i, j), "entry ", i, " ", j);
    Mx b = Mx::Constant(s.integer(0, 4), s.integer(0, 4), S(5));
    eigen_ros::from_ros(msg, b);
    CHECK(b.rows() == n && b.cols() == n && b == m, "round trip");
    StampedMsg st;
    const ros::Time t = stamp(s);
    const std::string f = name(s);
    eigen_ros::to_ros(st, m, t, f);
    CHECK(st.header.stamp == t && st.header.frame_id == f && st.covariance == msg, "stamped");
    ros::Time t2;
    std::string f2;
    b.setZero();
    eigen_ros::from_ros(st, b, t2, f2);
    CHECK(t2 == t && f2 == f && b == m, "stamped round trip");
    if (k != n) {
        Msg bad;
        CHECK_THROWS(eigen_ros::to_ros(bad, r), n, " by ", k, " is not square");
        StampedMsg bads;
        CHECK_THROWS(eigen_ros::to_ros(bads, r, t, f), n, " by ", k, " is not square");
        s.label("not square");
    }
    // wrong number of entries
    Msg wrong = msg;
    if (s.boolean()) wrong.dimensions += s.integer(1, 3); else wrong.matrix.resize(wrong.matrix.size() + s.integer(1, 3));
    CHECK_THROWS(eigen_ros::from_ros(wrong, b), "wrong size");
    std::vector<S> v(s.draw(3), S(1));
    eigen_ros::to_ros(v, r);
    CHECK(v.size() == static_cast<std::size_t>(n * k), "vector size");
    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) CHECK(v[i * k + j] == r(i, j), "vector entry");
    Mx rb(n, k);
    rb.setZero();
    eigen_ros::from_ros(v, rb);
    CHECK(rb == r, "vector round trip");
    v.push_back(S(0));
    CHECK_THROWS(eigen_ros::from_ros(v, rb), "vector of the wrong size");
}
}

PROPERTY(matrices, 10000, 200000, "always") {
    fixed<double, 3, 3, double>(s);
    fixed<double, 6, 6, double>(s);
    fixed<double, 2, 4, double>(s);
    fixed<float, 3, 4, double>(s);
    dynamic<statistics_msgs::Covariance, statistics_msgs::CovarianceStamped, double>(s);
    dynamic<statistics_msgs::CovarianceFloat32, statistics_msgs::CovarianceFloat32Stamped, float>(s);
    // multi-arrays
    const int r = static_cast<int>(s.integer(1, 5)), c = static_cast<int>(s.integer(1, 5));
    Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = any(s);
    std_msgs::Float64MultiArray a;
    if (s.boolean()) {  // a message that was used before
        s.label("reused multi-array");
        eigen_ros::to_ros(a, Eigen::MatrixXd(Eigen::MatrixXd::Ones(s.integer(1, 4), s.integer(1, 4))));
    }
    eigen_ros::to_ros(a, m);
    CHECK(a.layout.dim.size() == 2 && a.layout.dim[0].size == static_cast<uint32_t>(r) && a.layout.dim[1].size == static_cast<uint32_t>(c), "multi-array dimensions");
    CHECK(a.layout.dim[0].stride == static_cast<uint32_t>(r * c) && a.layout.dim[1].stride == static_cast<uint32_t>(c), "multi-array strides");
    CHECK(a.data.size() == static_cast<std::size_t>(r * c), "multi-array size");
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) CHECK(a.data[a.layout.data_offset + a.layout.dim[1].stride * i + j] == m(i, j), "multi-array entry");
    Eigen::MatrixXd b = Eigen::MatrixXd::Zero(r, c);
    eigen_ros::from_ros(a, b);
    CHECK(b == m, "multi-array round trip");
    // padded rows and an offset
    std_msgs::Float64MultiArray p = a;
    const int pad = static_cast<int>(s.integer(0, 3)), off = static_cast<int>(s.integer(0, 4));
    p.layout.data_offset = off;
    p.layout.dim[1].stride = c + pad;
    p.layout.dim[0].stride = r * (c + pad);
    p.data.assign(off + r * (c + pad), -77.0);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) p.data[off + i * (c + pad) + j] = m(i, j);
    b.setZero();
    eigen_ros::from_ros(p, b);
    CHECK(b == m, "padded multi-array");
    Eigen::MatrixXd wrong(r + 1, c);
    CHECK_THROWS(eigen_ros::from_ros(a, wrong), "multi-array of the wrong shape");
    p.layout.dim.pop_back();
    CHECK_THROWS(eigen_ros::from_ros(p, b), "multi-array of one dimension");
    s.nontrivial();
    s.note() << r << " by " << c;
}

PROPERTY(parameters_and_comparison, 8000, 160000, "always") {
    shim::bus().reset();
    ros::NodeHandle nh("~");
    Eigen::Matrix3d m;
    XmlRpc::XmlRpcValue v;
    const int n = s.boolean() ? 9 : static_cast<int>(s.integer(1, 12));
    for (int i = 0; i < n; ++i) { const double d = any(s); if (i < 9) m(i / 3, i % 3) = d; v[i] = d; }
    CHECK(eigen_ros::matrix3d_from_param(nh, "rotation") == Eigen::Matrix3d::Identity(), "default");
    shim::set_param("/node/rotation", v);
    if (n >= 9) CHECK(eigen_ros::matrix3d_from_param(nh, "rotation") == m, "row-major matrix");
    else CHECK_THROWS(eigen_ros::matrix3d_from_param(nh, "rotation"), "too few values");
    // comparison: q and -q are the same orientation; any differing part makes a difference
    const Eigen::Isometry3d T = gen::isometry(s);
    eigen_ros::Odometry a(eigen_ros::Pose(T, gen::spd<6>(s)), eigen_ros::Twist(gen::vec3(s) + Eigen::Vector3d::Ones(), gen::vec3(s), gen::spd<6>(s)), stamp(s), "a", "b"), b = a;
    b.pose.orientation.coeffs() = -b.pose.orientation.coeffs();
    CHECK(a == b && a.pose == b.pose, "sign of the quaternion");
    switch (s.draw(8)) {
        case 0: b.pose.position[s.draw(2)] += 0.5; break;
        case 1: b.pose.orientation = b.pose.orientation * Eigen::Quaterniond(Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitX())); break;
        case 2: b.pose.covariance(s.draw(5), s.draw(5)) += 1.0; break;
        case 3: b.twist.linear[s.draw(2)] += 0.5; break;
        case 4: b.twist.angular[s.draw(2)] += 0.5; break;
        case 5: b.twist.covariance(s.draw(5), s.draw(5)) += 1.0; break;
        case 6: b.timestamp += ros::Duration(0, 1); break;
        case 7: b.frame = "c"; break;
        default: b.child_frame = "c"; break;
    }
    CHECK(!(a == b), "different odometry compares equal");
    s.nontrivial();
    s.note() << n << " values";
}

// The text form of a pose lists position, orientation (w first) and covariance, in this order.
PROPERTY(text, 1000, 20000, "always") {
    const eigen_ros::Pose pose = anypose(s);
    std::ostringstream o;
    o << pose;
    std::istringstream in(o.str());
    std::vector<double> got, want{pose.position[0], pose.position[1], pose.position[2], pose.orientation.w(), pose.orientation.x(), pose.orientation.y(), pose.orientation.z()};
    for (int i = 0; i < 36; ++i) want.push_back(pose.covariance(i / 6, i % 6));
    for (std::string w; in >> w;) {
        char* end = nullptr;
        const double x = std::strtod(w.c_str(), &end);
        if (end != w.c_str()) got.push_back(x);
    }
    CHECK(got.size() == want.size(), o.str(), ": ", got.size(), " values of ", want.size());
    for (std::size_t i = 0; i < want.size(); ++i) CHECK(std::abs(got[i] - want[i]) <= 1e-3 * std::abs(want[i]) + 1e-12, o.str(), ": value ", i, " is not ", want[i]);
    s.nontrivial(true);
}
