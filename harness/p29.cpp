// P29: IMU preintegration and its helpers against explicit interval lists.
#include <eigen_ros/eigen_ros.hpp>
#include <serpent/utils/ros_conversion.hpp>
#include <serpent/utils/utilities.hpp>

#include "mutex_use.hpp"
#include "gen.hpp"

namespace {
typedef gtsam::PreintegratedCombinedMeasurements Pim;
boost::shared_ptr<Pim::Params> params(pbt::Src& s) {
    auto p = s.boolean() ? Pim::Params::MakeSharedU(9.81) : Pim::Params::MakeSharedD(9.81);
    p->accelerometerCovariance = s.uniform(1e-5, 1e-2) * Eigen::Matrix3d::Identity();
    p->gyroscopeCovariance = s.uniform(1e-6, 1e-3) * Eigen::Matrix3d::Identity();
    p->integrationCovariance = 1e-6 * Eigen::Matrix3d::Identity();
    p->biasAccCovariance = 1e-5 * Eigen::Matrix3d::Identity();
    p->biasOmegaCovariance = 1e-6 * Eigen::Matrix3d::Identity();
    p->biasAccOmegaInt = 1e-7 * Eigen::Matrix<double, 6, 6>::Identity();
    return p;
}
ros::Time ns(int64_t t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(t)); return r; }
struct Buffer { std::deque<eigen_ros::Imu> imus; std::vector<int64_t> t; };
Buffer buffer(pbt::Src& s, int lo, int hi) {
    Buffer b;
    int64_t t = 1600000000LL * 1000000000LL + static_cast<int64_t>(s.draw(2000000000ULL));
    if (s.boolean()) t = 1600000000LL * 1000000000LL;
    const int n = static_cast<int>(s.size(lo, hi));
    const bool grid = s.boolean();
    for (int i = 0; i < n; ++i) {
        eigen_ros::Imu m;
        m.linear_acceleration = gen::vec3(s, 5.0) + Eigen::Vector3d(0, 0, 9.81);
        m.angular_velocity = gen::vec3(s, 2.0);
        m.timestamp = ns(t);
        b.imus.push_back(m);
        b.t.push_back(t);
        if (s.chance(1, 10)) { s.label("repeated timestamp"); continue; }
        t += grid ? 10000000LL * s.integer(1, 2) : static_cast<int64_t>(s.draw(20000000ULL)) + 1;
    }
    return b;
}
// Integrate [a, b] by definition: each measurement is held until the next one, the last one until the end.
void reference(Pim& pim, const Buffer& m, int64_t a, int64_t b) {
    for (std::size_t i = 0; i < m.t.size(); ++i) {
        const int64_t from = std::max(a, m.t[i]), to = i + 1 < m.t.size() ? std::min(b, m.t[i + 1]) : b;
        if (to > from) pim.integrateMeasurement(m.imus[i].linear_acceleration, m.imus[i].angular_velocity, 1e-9 * static_cast<double>(to - from));
    }
}
int64_t moment(pbt::Src& s, const Buffer& m, int64_t lo, int64_t hi) {
    if (s.boolean()) { const int64_t t = m.t[s.draw(m.t.size() - 1)]; if (t >= lo && t <= hi) { s.label("time of a measurement"); return t; } }
    switch (s.draw(5)) {
        case 0: return lo;
        case 1: return hi;
        default: return lo + static_cast<int64_t>(s.draw(static_cast<uint64_t>(hi - lo)));
    }
}
void same(const Pim& a, const Pim& b, const std::string& what) {
    CHECK(pbt::near(a.deltaTij(), b.deltaTij(), 1e-9), what, ": integrated ", a.deltaTij(), " s instead of ", b.deltaTij());
    CHECK((a.preintegrated() - b.preintegrated()).norm() <= 1e-9 * (1 + b.preintegrated().norm()), what, ": ", a.preintegrated().transpose(), " expected ", b.preintegrated().transpose());
    CHECK((a.preintMeasCov() - b.preintMeasCov()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.preintMeasCov().cwiseAbs().maxCoeff()), what, ": covariance");
}
}

PROPERTY(integration, 15000, 300000, "three or more measurements inside the interval") {
    const Buffer m = buffer(s, 2, 14);
    const int64_t lo = m.t.front(), hi = m.t.back() + 30000000LL;
    int64_t a = moment(s, m, lo, hi), b = moment(s, m, lo, hi);
    if (a > b) std::swap(a, b);
    const auto p = params(s);
    const gtsam::imuBias::ConstantBias bias(gtsam::Vector3(gen::vec3(s, 0.1)), gtsam::Vector3(gen::vec3(s, 0.05)));
    Pim got(p, bias), want(p, bias);
    serpent::integrate_imu(got, m.imus, ns(a), ns(b));
    reference(want, m, a, b);
    same(got, want, "interval");
    CHECK(pbt::near(got.deltaTij(), 1e-9 * static_cast<double>(b - a), 1e-9), "covers the interval exactly once");
    // the interval split anywhere
    const int64_t c = a == b ? a : a + static_cast<int64_t>(s.draw(static_cast<uint64_t>(b - a)));
    const int64_t mid = s.boolean() ? c : std::min(b, std::max(a, moment(s, m, lo, hi)));
    Pim split(p, bias), wsplit(p, bias);
    serpent::integrate_imu(split, m.imus, ns(a), ns(mid));
    serpent::integrate_imu(split, m.imus, ns(mid), ns(b));
    reference(wsplit, m, a, mid);
    reference(wsplit, m, mid, b);
    same(split, wsplit, "split interval");
    const gtsam::NavState start(gtsam::Pose3(gtsam::Rot3(gen::rotation(s, false)), gtsam::Point3(0, 0, 0)), gtsam::Vector3(gen::vec3(s, 2.0)));
    const auto e1 = got.predict(start, bias), e2 = split.predict(start, bias);
    CHECK((e1.position() - e2.position()).norm() < 5e-3 && (e1.velocity() - e2.velocity()).norm() < 2e-2, "split interval moves elsewhere: ", (e1.position() - e2.position()).norm());
    // measurements after the end and all but the last before the start do not matter
    std::deque<eigen_ros::Imu> other = m.imus;
    for (std::size_t i = 0; i < other.size(); ++i)
        if (m.t[i] > b || (i + 1 < m.t.size() && m.t[i + 1] <= a)) other[i].linear_acceleration += Eigen::Vector3d(50, -30, 20);
    Pim unaffected(p, bias);
    serpent::integrate_imu(unaffected, other, ns(a), ns(b));
    same(unaffected, want, "measurements outside the interval");
    int inside = 0;
    for (int64_t t : m.t) inside += t > a && t < b;
    s.nontrivial(inside >= 3);
    s.note() << m.t.size() << " measurements, " << inside << " inside " << 1e-9 * static_cast<double>(b - a) << " s";
}

PROPERTY(integration_refused, 3000, 60000, "the buffer cannot cover the start") {
    Buffer m = buffer(s, 0, 5);
    const auto p = params(s);
    const int64_t base = m.t.empty() ? 1600000000LL * 1000000000LL : m.t.front();
    Pim got(p), want(p);
    serpent::integrate_imu(got, m.imus, ns(base - 100), ns(base - 100));
    same(got, want, "empty interval");
    if (m.t.size() < 2) CHECK_THROWS(serpent::integrate_imu(got, m.imus, ns(base), ns(base + 10000000)));
    CHECK_THROWS(serpent::integrate_imu(got, m.imus, ns(base - 1 - static_cast<int64_t>(s.draw(1000000))), ns(base + 10000000)));
    s.nontrivial();
    s.note() << m.t.size() << " measurements";
}

PROPERTY(trimming, 15000, 300000, "some measurements removed and some kept") {
    const Buffer m = buffer(s, 0, 14);
    const int64_t base = m.t.empty() ? 1000000000LL : m.t.front(), end = m.t.empty() ? base : m.t.back();
    const int64_t t = m.t.empty() ? base : moment(s, m, base - 5, end + 5);
    auto out = m.imus;
    serpent::delete_old_measurements(ns(t), out);
    std::size_t first = 0;
    while (first < m.t.size() && m.t[first] < t) ++first;
    CHECK(out.size() == m.t.size() - first, "kept ", out.size(), " of ", m.t.size(), " instead of ", m.t.size() - first);
    for (std::size_t i = 0; i < out.size(); ++i) CHECK(out[i] == m.imus[first + i], "measurement ", i);
    s.nontrivial(first > 0 && first < m.t.size());
    s.note() << "kept " << out.size() << " of " << m.t.size();
}

PROPERTY(interpolation, 20000, 400000, "a time strictly between the two") {
    const int64_t t1 = 1000000000LL * static_cast<int64_t>(s.draw(2000000000ULL)) + static_cast<int64_t>(s.draw(999999999)), len = static_cast<int64_t>(s.draw(s.boolean() ? 2000000000ULL : 10ULL));
    const int64_t t2 = t1 + len;
    int64_t t = t1 + (len > 0 ? static_cast<int64_t>(s.draw(static_cast<uint64_t>(len))) : 0);
    if (s.chance(1, 8)) t = t2 + 1 + static_cast<int64_t>(s.draw(1000000));
    else if (s.chance(1, 8) && t1 > 2000000) t = t1 - 1 - static_cast<int64_t>(s.draw(1000000));
    sensor_msgs::FluidPressure a, b;
    a.header.stamp = ns(t1); b.header.stamp = ns(t2);
    a.header.frame_id = "first"; b.header.frame_id = "second";
    a.fluid_pressure = s.uniform(8e4, 1.1e5); b.fluid_pressure = s.uniform(8e4, 1.1e5);
    a.variance = s.uniform(0, 10); b.variance = s.uniform(0, 10);
    if (len == 0 || t < t1 || t > t2) {
        CHECK_THROWS(serpent::interpolate_pressure(a, b, ns(t)), "times ", t1, " ", t2, " ", t);
        CHECK_THROWS(serpent::interpolate(1.0, 2.0, ns(t1), ns(t2), ns(t)));
        if (len > 0) CHECK_THROWS(serpent::interpolate(1.0f, 2.0f, ns(t2), ns(t1), ns(t)));
        s.label("refused");
        return;
    }
    const double f = static_cast<double>(t - t1) / static_cast<double>(len);
    const auto c = serpent::interpolate_pressure(a, b, ns(t));
    CHECK(c.header.stamp == ns(t) && c.header.frame_id == "first", "header");
    CHECK(pbt::near(c.fluid_pressure, a.fluid_pressure + f * (b.fluid_pressure - a.fluid_pressure), 1e-6), "pressure ", c.fluid_pressure);
    CHECK(pbt::near(c.variance, a.variance + f * (b.variance - a.variance), 1e-9), "variance");
    if (t == t1) CHECK(c.fluid_pressure == a.fluid_pressure && c.variance == a.variance, "at the first");
    if (t == t2) CHECK(c.fluid_pressure == b.fluid_pressure && c.variance == b.variance, "at the second");
    const double x = s.uniform(-100, 100), y = s.uniform(-100, 100);
    CHECK(pbt::near(serpent::interpolate(x, y, ns(t1), ns(t2), ns(t)), x + f * (y - x), 1e-9), "double");
    CHECK(pbt::near(serpent::interpolate(float(x), float(y), ns(t1), ns(t2), ns(t)), x + f * (y - x), 1e-3), "float");
    s.nontrivial(t > t1 && t < t2);
    s.note() << "fraction " << f;
}

PROPERTY(parameters, 8000, 160000, "one of the parameters invalid") {
    auto p = params(s);
    auto pd = [&] { const Eigen::Matrix3d R = gen::rotation(s, false); Eigen::Vector3d d(s.uniform(0.01, 1), s.uniform(0.01, 1), s.uniform(0.01, 1)); Eigen::Matrix3d M = R * d.asDiagonal() * R.transpose(); M = (0.5 * (M + M.transpose())).eval(); M(1, 0) = M(0, 1); M(2, 0) = M(0, 2); M(2, 1) = M(1, 2); return M; };
    auto broken = [&]() -> Eigen::Matrix3d {
        Eigen::Matrix3d M = pd();
        switch (s.draw(3)) {
            case 0: M(0, 1) += 0.5; return M;  // not symmetric
            case 1: { const int k = static_cast<int>(s.draw(2)); M.row(k).setZero(); M.col(k).setZero(); M(k, k) = -0.1; return M; }
            case 2: M(s.draw(2), s.draw(2)) = std::numeric_limits<double>::quiet_NaN(); return M;
            default: return -M;
        }
    };
    CHECK(serpent::check_valid(*p), "valid parameters");
    const int which = static_cast<int>(s.draw(4));
    const Eigen::Matrix3d A = which == 1 ? broken() : pd(), G = which == 2 ? broken() : pd();
    if (which == 3) p->integrationCovariance = broken();
    if (which == 4) p->n_gravity.setZero();
    if (which == 0) {
        serpent::update_preintegration_params(*p, A, G);
        CHECK(p->accelerometerCovariance == A && p->gyroscopeCovariance == G, "parameters updated");
        CHECK(serpent::check_valid(*p), "valid parameters");
    } else {
        CHECK_THROWS(serpent::update_preintegration_params(*p, A, G), "invalid part ", which);
        auto q = params(s);
        q->accelerometerCovariance = A; q->gyroscopeCovariance = G; q->integrationCovariance = p->integrationCovariance; q->n_gravity = p->n_gravity;
        CHECK(!serpent::check_valid(*q), "invalid part ", which);
        s.nontrivial();
    }
    s.note() << "invalid part " << which;
}

PROPERTY(conversions, 8000, 160000, "always") {
    const gtsam::imuBias::ConstantBias bias(gtsam::Vector3(gen::vec3(s, 1)), gtsam::Vector3(gen::vec3(s, 1)));
    serpent::ImuBiases m;
    const ros::Time t(static_cast<uint32_t>(s.draw(2000000000)), static_cast<uint32_t>(s.draw(999999999)));
    if (s.boolean()) { serpent::to_ros(m, bias, t, "imu"); CHECK(m.header.frame_id == "imu", "frame"); } else serpent::to_ros(m, bias, t);
    CHECK(m.header.stamp == t && m.accelerometer_bias.x == bias.accelerometer()[0] && m.accelerometer_bias.y == bias.accelerometer()[1] && m.accelerometer_bias.z == bias.accelerometer()[2] &&
          m.gyroscope_bias.x == bias.gyroscope()[0] && m.gyroscope_bias.y == bias.gyroscope()[1] && m.gyroscope_bias.z == bias.gyroscope()[2], "bias message");
    gtsam::imuBias::ConstantBias back;
    serpent::from_ros(m, back);
    CHECK(back.equals(bias, 0.0), "bias round trip");
    const gtsam::Pose3 pose(gtsam::Rot3(gen::rotation(s, false)), gtsam::Point3(gen::vec3(s, 20)));
    geometry_msgs::Pose pm;
    serpent::to_ros(pm, pose);
    CHECK(pm.position.x == pose.x() && pm.position.y == pose.y() && pm.position.z == pose.z(), "position");
    const Eigen::Quaterniond q(pm.orientation.w, pm.orientation.x, pm.orientation.y, pm.orientation.z);
    CHECK((q.toRotationMatrix() - pose.rotation().matrix()).norm() < 1e-9 && std::abs(q.norm() - 1) < 1e-9, "orientation");
    gtsam::Pose3 pb;
    serpent::from_ros(pm, pb);
    CHECK(pb.equals(pose, 1e-9), "pose round trip");
    Buffer b = buffer(s, 0, 6);
    for (auto& i : b.imus) { i.orientation = Eigen::Quaterniond(gen::rotation(s, false)); i.frame = s.pick({std::string("imu"), std::string("")}); i.angular_velocity_covariance = s.uniform(0.1, 1) * Eigen::Matrix3d::Identity(); i.linear_acceleration_covariance(0, 1) = s.uniform(0, 1); }
    std::vector<sensor_msgs::Imu> msgs;
    serpent::to_ros(msgs, b.imus);
    std::deque<eigen_ros::Imu> out;
    serpent::from_ros(msgs, out);
    CHECK(msgs.size() == b.imus.size() && out.size() == b.imus.size(), "as many measurements");
    for (std::size_t i = 0; i < out.size(); ++i) {
        CHECK(msgs[i].header.stamp == b.imus[i].timestamp && msgs[i].linear_acceleration.y == b.imus[i].linear_acceleration[1] && msgs[i].angular_velocity.z == b.imus[i].angular_velocity[2] && msgs[i].linear_acceleration_covariance[1] == b.imus[i].linear_acceleration_covariance(0, 1), "measurement ", i);
        CHECK(out[i] == b.imus[i], "measurement ", i, " round trip");
    }
    s.nontrivial();
    s.note() << b.imus.size() << " measurements";
}

// Waiting releases the lock while the condition holds and ends with the lock as asked for.
PROPERTY(waiting, 6000, 120000, "at least one sleep") {
    std::mutex mutex;
    const bool locked = s.boolean(), leave = s.boolean();
    const int needed = static_cast<int>(s.integer(0, 5)), stop = s.chance(1, 4) ? static_cast<int>(s.integer(1, 4)) : 100;
    int sleeps = 0, evaluated = 0;
    shim::node_ok() = true;
    shim::on_sleep() = [&](double d) {
        CHECK(d == 0.01, "sleep period ", d);
        CHECK(mutex.try_lock(), "the lock is held while sleeping");
        mutex.unlock();
        if (++sleeps > 50) throw pbt::Fail("never wakes");
        if (sleeps >= stop) shim::node_ok() = false;
    };
    if (locked) mutex.lock();
    const bool r = serpent::protected_sleep(mutex, 0.01, locked, leave, [&] {
        // must be protected
        CHECK(!mutex.try_lock(), "the condition is evaluated without the lock");
        ++evaluated;
        return sleeps < needed;
    });
    shim::on_sleep() = nullptr;
    const bool held = !mutex.try_lock();
    if (!held) mutex.unlock(); else if (leave) mutex.unlock();
    CHECK(held == leave, "lock after waiting");
    CHECK(r == shim::node_ok(), "result ", r, " after ", sleeps, " of ", needed, " sleeps");
    CHECK(sleeps == std::min(needed, stop), "sleeps ", sleeps);
    shim::node_ok() = true;
    s.nontrivial(sleeps > 0);
    s.note() << "sleeps " << sleeps << (locked ? " locked" : "") << (leave ? " leave" : "");
}
