// P10: deskewing against interpolation of the motion from first principles.
#include <pointcloud_tools/pclpointcloud2_utilities.hpp>

#include "cloud2.hpp"

namespace {
using cloud2::F;
const std::vector<int> FLOATS{F::FLOAT32, F::FLOAT64};
Eigen::Vector3d xyz(const pcl::PCLPointCloud2& c, std::size_t i) {
    return Eigen::Vector3d(cloud2::get(c, *cloud2::find(c, "x"), i), cloud2::get(c, *cloud2::find(c, "y"), i), cloud2::get(c, *cloud2::find(c, "z"), i));
}
}

PROPERTY(deskew, 20000, 400000, "the sensor moved and at least two points were captured at different times") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"x", FLOATS}, {"y", FLOATS}, {"z", FLOATS}, {"t", FLOATS}});
    const std::size_t n = cloud2::points(c);
    const double dt = s.pick({0.1, 0.05, 1.0, 0.0}) + s.uniform(0.001, 0.2);
    // motion
    Eigen::Vector3d rv = gen::rotvec(s);
    if (rv.norm() > 3.1) rv *= 3.1 / rv.norm();
    Eigen::Vector3d tr = gen::vec3(s, 5.0);
    if (s.chance(1, 8)) rv.setZero();
    const bool moving = rv.norm() > 1e-9 || tr.norm() > 1e-9;
    if (!moving) { rv.setZero(); tr.setZero(); s.label("motionless"); }
    const Eigen::Isometry3d skew = gen::make_iso(gen::rodrigues(rv), tr);
    // times
    std::set<double> times;
    for (std::size_t i = 0; i < n; ++i) {
        double f;
        switch (s.draw(5)) {
            case 0: f = 0.0; break;
            case 1: f = 1.0; break;
            case 2: f = s.uniform(-0.5, 1.5); break;
            default: f = s.uniform(0.0, 1.0);
        }
        cloud2::set(c, *cloud2::find(c, "t"), i, f * dt);
        times.insert(cloud2::get(c, *cloud2::find(c, "t"), i));
    }
    for (const char* nm : {"x", "y", "z"})
        for (std::size_t i = 0; i < n; ++i) if (std::abs(cloud2::get(c, *cloud2::find(c, nm), i)) > 1e3) cloud2::set(c, *cloud2::find(c, nm), i, s.uniform(-100, 100));
    std::int64_t shift;  // us
    switch (s.draw(4)) {
        case 0: shift = 0; break;
        case 1: shift = -static_cast<std::int64_t>(1e6 * dt * s.uniform(0.0, 3.0)); s.label("before the sweep"); break;
        case 2: shift = static_cast<std::int64_t>(1e6 * dt * s.uniform(1.0, 3.0)); s.label("after the sweep"); break;
        default: shift = static_cast<std::int64_t>(1e6 * dt * s.uniform(0.0, 1.0)); s.label("within the sweep");
    }
    const std::uint64_t new_time = c.header.stamp + static_cast<std::uint64_t>(shift);
    pcl::PCLPointCloud2 out;
    if (s.boolean()) out = cloud2::cloud(s, {});  // whatever was there before
    pct::deskew(skew, dt, new_time, c, out);
    CHECK(out.header.stamp == new_time && out.header.frame_id == c.header.frame_id && out.header.seq == c.header.seq, "header");
    CHECK(out.width == c.width && out.height == c.height && out.point_step == c.point_step && out.row_step == c.row_step && out.data.size() == c.data.size() &&
          out.is_dense == c.is_dense && out.is_bigendian == c.is_bigendian && out.fields.size() == c.fields.size(), "layout");
    const double fn = 1e-6 * static_cast<double>(shift) / dt;
    const Eigen::Isometry3d TN = gen::make_iso(gen::rodrigues(fn * rv), fn * tr).inverse();
    for (std::size_t k = 0; k < c.fields.size(); ++k) {
        const F &f = c.fields[k], &g = out.fields[k];
        CHECK(f.name == g.name && f.offset == g.offset && f.datatype == g.datatype && f.count == g.count, "fields");
        if (f.name == "x" || f.name == "y" || f.name == "z") continue;
        if (f.name == "t") { if (moving) for (std::size_t i = 0; i < n; ++i) CHECK(cloud2::get(out, g, i) == 0.0, "time offset of point ", i); continue; }
        for (std::size_t i = 0; i < n; ++i)
            CHECK(std::memcmp(cloud2::at(c, f, i), cloud2::at(out, g, i), cloud2::width_of(f.datatype) * f.count) == 0, "field ", f.name, " of point ", i);
    }
    for (std::size_t i = 0; i < n; ++i) {
        const double f = cloud2::get(c, *cloud2::find(c, "t"), i) / dt;
        const Eigen::Vector3d p = xyz(c, i);
        const Eigen::Vector3d e = TN * (gen::make_iso(gen::rodrigues(f * rv), f * tr) * p);
        const double tol = 2e-6 * (1.0 + p.norm() + 8.0 * tr.norm());
        CHECK((xyz(out, i) - e).norm() <= tol, "point ", i, " at fraction ", f, " to ", fn, ": ", xyz(out, i).transpose(), " expected ", e.transpose(), " rotation ", rv.transpose(), " translation ", tr.transpose());
    }
    s.nontrivial(moving && n >= 2 && times.size() >= 2);
    s.note() << cloud2::describe(c) << " rotation " << rv.norm() << " translation " << tr.norm() << " fraction " << fn;
}

PROPERTY(rejected, 3000, 60000, "a required field is missing or the duration is not positive") {
    std::vector<cloud2::Want> want{{"x", FLOATS}, {"y", FLOATS}, {"z", FLOATS}, {"t", FLOATS}};
    double dt = 0.1;
    if (s.boolean()) want.erase(want.begin() + static_cast<long>(s.draw(3)));
    else dt = s.pick({0.0, -0.1, -1.0});
    const auto c = cloud2::cloud(s, want);
    const Eigen::Isometry3d skew = gen::make_iso(gen::rodrigues(Eigen::Vector3d(0.1, 0, s.uniform(0, 1))), gen::vec3(s));
    pcl::PCLPointCloud2 out;
    CHECK_THROWS(pct::deskew(skew, dt, c.header.stamp, c, out));
    s.nontrivial();
    s.note() << "dt " << dt << " fields " << want.size();
}

// Deskewing to two different times must agree up to the motion between them, and keep distances of points taken together.
PROPERTY(consistent_between_times, 8000, 160000, "at least two points") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"x", {F::FLOAT64}}, {"y", {F::FLOAT64}}, {"z", {F::FLOAT64}}, {"t", {F::FLOAT64}}}, 1, 12);
    const std::size_t n = cloud2::points(c);
    const double dt = 0.1;
    for (const char* nm : {"x", "y", "z"}) for (std::size_t i = 0; i < n; ++i) cloud2::set(c, *cloud2::find(c, nm), i, s.uniform(-50, 50));
    for (std::size_t i = 0; i < n; ++i) cloud2::set(c, *cloud2::find(c, "t"), i, s.pick({0.0, 0.1, 0.05, s.uniform(0, 0.1)}));
    const Eigen::Vector3d rv = gen::rotvec(s) * 0.9, tr = gen::vec3(s, 3.0);
    const Eigen::Isometry3d skew = gen::make_iso(gen::rodrigues(rv), tr);
    pcl::PCLPointCloud2 at_start, at_end;
    pct::deskew(skew, dt, c.header.stamp, c, at_start);
    pct::deskew(skew, dt, c.header.stamp + 100000, c, at_end);
    for (std::size_t i = 0; i < n; ++i) {
        CHECK((skew * xyz(at_end, i) - xyz(at_start, i)).norm() < 1e-5, "point ", i, " in the start frame");
        const double t = cloud2::get(c, *cloud2::find(c, "t"), i);
        if (t == 0.0) CHECK((xyz(at_start, i) - xyz(c, i)).norm() < 1e-6, "captured at the start");
        if (t == 0.1) CHECK((xyz(at_end, i) - xyz(c, i)).norm() < 1e-6, "captured at the end");
    }
    s.nontrivial(n >= 2);
    s.note() << n << " points rotation " << rv.norm();
}
