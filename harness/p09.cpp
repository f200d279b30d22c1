// P09: filters and statistics of packed clouds against the per-point definition.
#include <pcl_conversions/pcl_conversions.h>
#include <pointcloud_tools/pclpointcloud2_utilities.hpp>
#include <pointcloud_tools/pointcloud_analyser.hpp>

#include "cloud2.hpp"

namespace {
using cloud2::F;
const std::vector<int> FLOATS{F::FLOAT32, F::FLOAT64};
struct Stats { long double min, max, sum, mean, var, mag; };
Stats stats(const pcl::PCLPointCloud2& c, const F& f) {
    Stats r{0, 0, 0, 0, 0, 0};
    const std::size_t n = cloud2::points(c);
    for (std::size_t i = 0; i < n; ++i) {
        const long double v = cloud2::get(c, f, i);
        if (i == 0 || v < r.min) r.min = v;
        if (i == 0 || v > r.max) r.max = v;
        r.sum += v;
        r.mag = std::max(r.mag, std::abs(v));
    }
    r.mean = r.sum / n;
    for (std::size_t i = 0; i < n; ++i) { const long double d = cloud2::get(c, f, i) - r.mean; r.var += d * d; }
    r.var /= n;
    return r;
}
template<typename T>
void filter(pbt::Src& s, const pcl::PCLPointCloud2& c, const F& f, double bound) {
    const T max = static_cast<T>(bound);
    pcl::PCLPointCloud2 out;
    if (s.boolean()) out = cloud2::cloud(s, {});
    if (s.boolean()) pct::filter_max<T>(c, out, f.name, max);
    else pct::filter_max<T>(c, out, f, max);
    cloud2::same_header(out, c);
    cloud2::consistent(out);
    CHECK(out.point_step == c.point_step && out.fields.size() == c.fields.size(), "layout");
    for (std::size_t k = 0; k < c.fields.size(); ++k)
        CHECK(out.fields[k].name == c.fields[k].name && out.fields[k].offset == c.fields[k].offset && out.fields[k].datatype == c.fields[k].datatype && out.fields[k].count == c.fields[k].count, "fields");
    std::size_t j = 0;
    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
        const double v = cloud2::get(c, f, i);
        bool keep = v <= static_cast<double>(max);
        if (!std::isnan(v) && keep != (static_cast<T>(v) <= max)) {  // rounding to the type of the bound may decide either way
            keep = j < cloud2::points(out) && std::memcmp(out.data.data() + j * out.point_step, c.data.data() + i * c.point_step, c.point_step) == 0;
        }
        if (!keep) continue;
        CHECK(j < cloud2::points(out), "point ", i, " with value ", v, " dropped, bound ", max);
        CHECK(std::memcmp(out.data.data() + j * out.point_step, c.data.data() + i * c.point_step, c.point_step) == 0, "kept point ", j, " is not point ", i, " of value ", v, ", bound ", max);
        ++j;
    }
    CHECK(j == cloud2::points(out), "kept ", cloud2::points(out), " points instead of ", j);
    s.nontrivial(j > 0 && j < cloud2::points(c));
    s.note() << "kept " << j << " of " << cloud2::points(c) << " by " << f.name << " type " << int(f.datatype) << " <= " << bound;
}
}

PROPERTY(filter_by_bound, 20000, 400000, "some points kept and some dropped") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {}, 5, 30);
    const F f = c.fields[s.draw(c.fields.size() - 1)];
    if (cloud2::is_float(f.datatype))
        for (std::size_t i = 0; i < cloud2::points(c); ++i) if (s.chance(1, 12)) cloud2::set(c, f, i, std::numeric_limits<double>::quiet_NaN());
    double bound = cloud2::scalar(s, f.datatype);
    if (cloud2::points(c) > 0 && s.boolean()) bound = cloud2::get(c, f, s.draw(cloud2::points(c) - 1));
    if (std::isnan(bound)) bound = 0.0;
    switch (s.draw(2)) {
        case 0: filter<double>(s, c, f, bound); break;
        case 1: filter<float>(s, c, f, bound); break;
        default:
            if (cloud2::is_float(f.datatype)) filter<double>(s, c, f, bound);
            else cloud2::with_type(f.datatype, [&](auto z) { filter<decltype(z)>(s, c, f, bound); return 0; });
    }
    pcl::PCLPointCloud2 out;
    CHECK_THROWS(pct::filter_max<float>(c, out, "missing", 1.f));
}

PROPERTY(field_statistics, 20000, 400000, "at least two different values in some field") {
    const pcl::PCLPointCloud2 c = cloud2::cloud(s, {}, 5, 30, false);
    const std::size_t n = cloud2::points(c);
    if (n == 0) {
        CHECK_THROWS(pct::min<double>(c, c.fields[0]));
        CHECK_THROWS(pct::max<double>(c, c.fields[0]));
        CHECK_THROWS(pct::statistics(c, c.fields[0]));
        CHECK_THROWS(pct::statistics(c));
        CHECK_THROWS(pct::info_string(c));
        CHECK(pct::sum<double>(c, c.fields[0]) == 0.0, "sum of nothing");
        return;
    }
    const auto all = pct::statistics(c);
    CHECK(all.statistics.size() == c.fields.size(), "one entry per field");
    CHECK(all.header.frame_id == c.header.frame_id && all.header.stamp.toNSec() / 1000 == c.header.stamp && all.header.seq == c.header.seq, "header");
    const std::string info = pct::info_string(c, all.statistics);
    CHECK(info == pct::info_string(c), "report");
    for (std::size_t k = 0; k < c.fields.size(); ++k) {
        const F& f = c.fields[k];
        const Stats e = stats(c, f);
        const double ms = static_cast<double>(e.mag), tm = 1e-12 * n * (ms + 1e-300), tv = 1e-11 * n * (ms * ms + 1e-300);
        const auto one = pct::statistics(c, f);
        for (const auto& st : {one, all.statistics[k]}) {
            CHECK(st.label == f.name && st.count == n, "label and count");
            CHECK(st.min == static_cast<double>(e.min) && st.max == static_cast<double>(e.max), "extremes of ", f.name, ": ", st.min, " ", st.max, " expected ", (double)e.min, " ", (double)e.max);
            CHECK(pbt::near(st.mean, e.mean, tm), "mean of ", f.name, ": ", st.mean, " expected ", (double)e.mean);
            CHECK(pbt::near(st.variance, e.var, tv), "variance of ", f.name, ": ", st.variance, " expected ", (double)e.var);
        }
        CHECK(pct::min<double>(c, f.name) == one.min && pct::max<double>(c, f.name) == one.max, "by name");
        CHECK(pbt::near(pct::sum<double>(c, f), e.sum, tm * n) && pbt::near(pct::sum<double>(c, f.name), e.sum, tm * n), "sum");
        CHECK(pbt::near(pct::mean(c, f), e.mean, tm) && pbt::near(pct::mean(c, f.name), e.mean, tm), "mean");
        CHECK(pbt::near(pct::mean<float>(c, f), e.mean, 1e-5 * n * (ms + 1e-30)), "float mean");
        CHECK(pbt::near(pct::variance(c, f), e.var, tv) && pbt::near(pct::variance(c, f.name), e.var, tv), "variance");
        CHECK(pbt::near(pct::variance(c, f, static_cast<double>(e.mean)), e.var, tv) && pbt::near(pct::variance(c, f.name, static_cast<double>(e.mean)), e.var, tv), "variance about a mean");
        const double about = s.uniform(-5, 5);
        const long double shifted = e.var + (e.mean - about) * (e.mean - about);
        CHECK(pbt::near(pct::variance(c, f, about), shifted, 1e-11 * n * (ms + 5) * (ms + 5)), "variance about another value");
        const double sd = std::sqrt(static_cast<double>(e.var)), ts = 1e-5 * (1e-30 + ms);
        CHECK(pbt::near(pct::standard_deviation(c, f), sd, ts) && pbt::near(pct::standard_deviation(c, f.name), sd, ts) &&
              pbt::near(pct::standard_deviation(c, f, static_cast<double>(e.mean)), sd, ts) && pbt::near(pct::standard_deviation(c, f.name, static_cast<double>(e.mean)), sd, ts), "standard deviation ", pct::standard_deviation(c, f), " ", sd);
        cloud2::with_type(f.datatype, [&](auto z) {
            typedef decltype(z) T;
            CHECK(pct::min<T>(c, f) == static_cast<T>(e.min) && pct::max<T>(c, f) == static_cast<T>(e.max), "extremes in the field's type");
            const T mean_t = pct::mean<T>(c, f);
            CHECK(pbt::near(mean_t, e.mean, (std::is_floating_point<T>::value ? 1e-5 * n * (ms + 1e-30) : 1.0 + tm)) && pct::mean<T>(c, f.name) == mean_t, "mean in the field's type: ", +mean_t, " expected ", (double)e.mean);
            CHECK(pct::min_str(c, f) == std::to_string(static_cast<T>(e.min)) && pct::max_str(c, f) == std::to_string(static_cast<T>(e.max)), "extremes as text");
            CHECK(info.find("max: " + std::to_string(static_cast<T>(e.max))) != std::string::npos && info.find("min: " + std::to_string(static_cast<T>(e.min))) != std::string::npos, "report holds the extremes");
            return 0;
        });
        CHECK(info.find(pct::field_string(f)) != std::string::npos && pct::field_string(f).find(pct::field_type_to_string(f.datatype)) != std::string::npos, "report holds the field");
        s.nontrivial(e.min != e.max);
    }
    auto fewer = all.statistics;
    fewer.pop_back();
    CHECK_THROWS(pct::info_string(c, fewer));
    CHECK_THROWS(pct::mean(c, "missing"));
    s.note() << cloud2::describe(c);
}

PROPERTY(geometry_of_points, 12000, 240000, "at least two points") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"x", FLOATS}, {"y", FLOATS}, {"z", FLOATS}}, 3, 20);
    const F fx = *cloud2::find(c, "x"), fy = *cloud2::find(c, "y"), fz = *cloud2::find(c, "z");
    const std::size_t n = cloud2::points(c);
    bool axis = false, zero = false;
    for (std::size_t i = 0; i < n; ++i) {
        const double x = cloud2::get(c, fx, i), y = cloud2::get(c, fy, i);
        if (std::hypot(x, y) < 1e-2) {
            if (s.chance(29, 30)) cloud2::set(c, fx, i, s.pick({1.0, -1.0, 3.0}));
            else { cloud2::set(c, fx, i, 0); cloud2::set(c, fy, i, 0); axis = true; if (cloud2::get(c, fz, i) == 0 || s.boolean()) { cloud2::set(c, fz, i, 0); zero = true; } else if (std::abs(cloud2::get(c, fz, i)) < 1e-2) cloud2::set(c, fz, i, 1.0); }
        }
    }
    if (zero) { CHECK_THROWS(pct::unit_vectors<float>(c)); CHECK_THROWS(pct::unit_vectors<double>(c)); s.label("zero point"); }
    if (axis) { CHECK_THROWS(pct::polar_coordinates<float>(c)); CHECK_THROWS(pct::polar_coordinates<double>(c)); s.label("point on the axis"); }
    auto check = [&](auto z, double tol, double atol) {
        typedef decltype(z) T;
        if (!zero) {
            const auto u = pct::unit_vectors<T>(c);
            CHECK(u.cols() == static_cast<long>(n), "one unit vector per point");
            for (std::size_t i = 0; i < n; ++i) {
                const Eigen::Vector3d p(cloud2::get(c, fx, i), cloud2::get(c, fy, i), cloud2::get(c, fz, i));
                CHECK((u.col(i).template cast<double>() - p.normalized()).norm() < tol, "unit vector ", i);
            }
        }
        if (!axis) {
            const auto q = pct::polar_coordinates<T>(c);
            CHECK(q.cols() == static_cast<long>(n), "one column per point");
            for (std::size_t i = 0; i < n; ++i) {
                const Eigen::Vector3d p(cloud2::get(c, fx, i), cloud2::get(c, fy, i), cloud2::get(c, fz, i));
                double az = std::atan2(p[1], p[0]);
                if (az < 0) az += 2 * M_PI;
                CHECK(pbt::near(q(0, i), p.norm(), tol * p.norm()), "range of point ", i);
                CHECK(std::abs(std::remainder(q(1, i) - az, 2 * M_PI)) < atol && q(1, i) >= 0 && q(1, i) <= 2 * M_PI + 1e-5, "azimuth of point ", i, ": ", q(1, i), " expected ", az);
                CHECK(pbt::near(q(2, i), std::atan2(std::hypot(p[0], p[1]), p[2]), atol), "polar angle of point ", i);
            }
        }
    };
    check(float{}, 1e-5, 2e-3);
    check(double{}, 1e-12, 1e-7);
    s.nontrivial(n >= 2);
    s.note() << cloud2::describe(c);
}

PROPERTY(normals_counted, 8000, 160000, "some normals normalised and some not") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"normal_x", FLOATS}, {"normal_y", FLOATS}, {"normal_z", FLOATS}}, 2, 24);
    const float thr = s.pick({1e-6f, 1e-3f, 0.1f});
    int bad = 0, good = 0;
    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
        Eigen::Vector3d v(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1));
        if (v.norm() < 0.1) v = Eigen::Vector3d::UnitZ();
        v.normalize();
        if (s.boolean()) { v = Eigen::Vector3d::Zero(); v[s.draw(2)] = 1.0; }
        else if (thr < 1e-3f) v = Eigen::Vector3d::UnitX();
        if (s.boolean()) { v *= s.boolean() ? 1.0 + 2.0 * thr : (s.boolean() ? 1.0 - 2.0 * thr : 0.0); ++bad; } else ++good;
        for (int k = 0; k < 3; ++k) cloud2::set(c, *cloud2::find(c, k == 0 ? "normal_x" : k == 1 ? "normal_y" : "normal_z"), i, v[k]);
    }
    CHECK(pct::check_normals(c, thr) == bad, "unnormalised normals: ", pct::check_normals(c, thr), " expected ", bad, " threshold ", thr);
    if (thr == 1e-6f) CHECK(pct::check_normals(c) == bad, "default threshold");
    s.nontrivial(bad > 0 && good > 0);
    s.note() << bad << " bad " << good << " good";
}

PROPERTY(analysis_node, 4000, 80000, "at least two clouds analysed") {
    shim::bus().reset();
    pct::PointcloudAnalyser node;
    const int n = static_cast<int>(s.integer(1, 4));
    for (int k = 0; k < n; ++k) {
        const bool normals = s.boolean();
        std::vector<cloud2::Want> want;
        if (!normals && s.boolean()) {  // an incomplete normal is not one
            s.label("incomplete normal fields");
            const int missing = static_cast<int>(s.integer(1, 6));
            const char* const names[3] = {"normal_x", "normal_y", "normal_z"};
            for (int a = 0; a < 3; ++a) if (!(missing >> a & 1)) want.push_back({names[a], FLOATS});
        }
        if (normals) want = {{"normal_x", FLOATS}, {"normal_y", FLOATS}, {"normal_z", FLOATS}};
        pcl::PCLPointCloud2 c = cloud2::cloud(s, want, 3, 12, false);
        if (cloud2::points(c) == 0) { pcl::PCLPointCloud2 d = c; c.width = 1; c.row_step = c.point_step; c.data.assign(std::size_t(c.row_step) * c.height, 0); }
        sensor_msgs::PointCloud2 m;
        pcl_conversions::fromPCL(c, m);
        shim::inject("/node/input", m);
        const auto out = shim::captured<statistics_msgs::SummaryStatisticsArray>("/node/output_statistics");
        CHECK(out.size() == static_cast<std::size_t>(k + 1), "one report per cloud, ", out.size());
        const auto& r = out.back();
        CHECK(r.statistics.size() == c.fields.size() && r.header.frame_id == c.header.frame_id && r.header.stamp == m.header.stamp, "report of this cloud");
        for (std::size_t f = 0; f < c.fields.size(); ++f) {
            const Stats e = stats(c, c.fields[f]);
            const auto& st = r.statistics[f];
            const double ms = static_cast<double>(e.mag) + 1e-300;
            CHECK(st.label == c.fields[f].name && st.count == cloud2::points(c) && st.min == static_cast<double>(e.min) && st.max == static_cast<double>(e.max) &&
                  pbt::near(st.mean, e.mean, 1e-11 * ms) && pbt::near(st.variance, e.var, 1e-10 * ms * ms), "statistics of ", st.label);
        }
    }
    s.nontrivial(n >= 2);
    s.note() << n << " clouds";
}
