// P23: the point cloud preprocessing nodes against per-point definitions.
#include <pcl_conversions/pcl_conversions.h>
#include <pcl_ros/point_cloud.h>
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/pointcloud_add_unit_vectors.hpp>
#include <serpent/front_end/lidar/pointcloud_filter.hpp>
#include <serpent/front_end/lidar/pointcloud_formatter.hpp>
#include <serpent/front_end/lidar/pointcloud_normal_estimation.hpp>

#include <map>
#include <set>

#include <pcl/filters/random_sample.h>
#include "cloud2.hpp"

namespace {
using cloud2::F;
typedef pcl::PCLPointCloud2 Cloud;
typedef XmlRpc::XmlRpcValue X;
const std::string ns = "/serpent/";
void lidar_frame(const std::string& id) {
    X lidar, frames, body, root;
    lidar["frame_id"] = id;
    frames["lidar"] = lidar;
    body["frames"] = frames;
    root["base_link"] = body;
    shim::set_param(ns + "body_frames", root);
}
void pump() { for (int i = 0; !shim::bus().pending.empty(); ++i) { CHECK(i < 1000, "messages circulate for ever"); shim::pump_one(); } }
// all values of a point by field name
typedef std::map<std::string, std::vector<double>> Values;
Values values(const Cloud& c, std::size_t i) {
    Values v;
    for (const auto& f : c.fields) for (std::uint32_t k = 0; k < std::max(1u, f.count); ++k) { F g = f; g.offset += k * cloud2::width_of(f.datatype); v[f.name].push_back(cloud2::get(c, g, i)); }
    return v;
}
std::string show(const Values& v) { std::ostringstream o; for (const auto& [n, x] : v) { o << n << "="; for (double d : x) o << d << " "; } return o.str(); }
}

PROPERTY(formatting, 6000, 120000, "two or more points and at least one conversion, renaming or filtering") {
    shim::bus().reset();
    const std::string frame = s.pick({std::string("lidar"), std::string("os_sensor")});
    lidar_frame(frame);
    const bool ouster = s.boolean();
    if (!ouster || s.boolean()) shim::set_param(ns + "pointcloud_type", std::string(ouster ? "OUSTER" : "CUSTOM"));
    const bool filter = s.boolean(), drop = s.chance(1, 4);
    float limit = 0.1f;
    if (filter) shim::set_param(ns + "time_field_filter/enabled", true);
    if (filter && s.boolean()) { limit = static_cast<float>(s.integer(0, 8)) / 64.0f; shim::set_param(ns + "time_field_filter/max", static_cast<double>(limit)); }
    if (drop) { shim::set_param(ns + "first_pointcloud_removal/enabled", true); s.label("first cloud removed"); }
    serpent::PointcloudFormatter node;
    const int n = static_cast<int>(s.integer(1, 3));
    bool did = false;
    for (int k = 0; k < n; ++k) {
        std::vector<cloud2::Want> want{{"x", {F::FLOAT32}}, {"y", {F::FLOAT32}}, {"z", {F::FLOAT32}}};
        int kind = 0;  // of the time field of a custom sensor
        if (ouster) { want.push_back({"t", {F::UINT32}}); want.push_back({"range", {F::UINT32}}); }
        else {
            kind = static_cast<int>(s.draw(4));
            if (kind == 0) want.push_back({"t", {F::FLOAT32}});
            if (kind == 1) want.push_back({"time", {F::FLOAT32}});
            if (kind == 2) { want.push_back({"t", {F::FLOAT32}}); want.push_back({"time", {F::FLOAT32}}); }
            if (kind == 4) want.push_back({s.boolean() ? "t" : "time", {F::FLOAT64, F::UINT32}});
        }
        Cloud c = cloud2::cloud(s, want);
        for (const char* nm : {"t", "time"}) if (const F* f = cloud2::find(c, nm)) for (std::size_t i = 0; i < cloud2::points(c); ++i) {
            if (f->datatype == F::UINT32) cloud2::set(c, *f, i, static_cast<double>(s.chance(1, 10) ? s.draw(4294967295ULL) : s.draw(130000000ULL)));
            else cloud2::set(c, *f, i, static_cast<double>(s.integer(-2, 9)) / 64.0);
        }
        c.header.stamp = 1600000000000000ULL + s.draw(1000000000000ULL);
        sensor_msgs::PointCloud2 m; pcl_conversions::fromPCL(c, m);
        m.header.stamp.nsec += static_cast<uint32_t>(s.draw(999));
        shim::bus().published.clear();
        const std::string ready = "/serpent/formatter/formatted_pointcloud";
        auto send = [&] { return shim::inject(ns + "input/pointcloud", m); };
        if (drop && k == 0) {
            CHECK(send() == 1, "subscription");
            CHECK(shim::count(ready) == 0, "the first cloud is to be removed");
            continue;
        }
        if (!ouster && filter && (kind == 3 || kind == 4)) {
            CHECK_THROWS(send(), "no usable time field");
            s.label("no usable time field");
            return;
        }
        CHECK(send() == 1, "subscription");
        const auto got = shim::captured<Cloud>(ready);
        CHECK(got.size() == 1, "one formatted cloud per cloud, got ", got.size());
        const Cloud& o = got[0];
        cloud2::consistent(o);
        CHECK(o.header.frame_id == frame, "frame id ", o.header.frame_id);
        CHECK(o.header.stamp == m.header.stamp.toNSec() / 1000, "timestamp");
        // expected field list
        std::map<std::string, std::string> from;  // output name to input name
        for (const auto& f : c.fields) from[f.name] = f.name;
        if (!ouster && !from.count("t") && from.count("time")) { from.erase("time"); from["t"] = "time"; did = true; }
        CHECK(o.fields.size() == from.size(), o.fields.size(), " fields, expected ", from.size());
        std::vector<std::size_t> kept;
        for (std::size_t i = 0; i < cloud2::points(c); ++i) {
            if (filter) {
                const F& tf = *cloud2::find(c, from.at("t"));
                const double t = ouster ? cloud2::get(c, tf, i) * 1e-9 : cloud2::get(c, tf, i);
                if (ouster && std::abs(t - limit) < 1e-7 + 1e-6 * std::abs(t)) return;  // rounding decides
                if (t > limit) { did = true; continue; }
            }
            kept.push_back(i);
        }
        CHECK(cloud2::points(o) == kept.size(), cloud2::points(o), " points, expected ", kept.size(), " of ", cloud2::points(c));
        for (std::size_t j = 0; j < kept.size(); ++j) {
            const Values in = values(c, kept[j]), out = values(o, j);
            for (const auto& [name, src] : from) {
                CHECK(out.count(name), "field ", name, " is missing");
                auto e = in.at(src);
                const double scale = !ouster ? 1.0 : name == "t" ? 1e-9 : name == "range" ? 1e-3 : 1.0;
                const auto& g = out.at(name);
                CHECK(g.size() == e.size(), "elements of ", name);
                for (std::size_t q = 0; q < e.size(); ++q)
                    CHECK(scale == 1.0 ? (g[q] == e[q] || (std::isnan(g[q]) && std::isnan(e[q]))) : pbt::near(g[q], e[q] * scale, 1e-6 * std::abs(e[q] * scale)), "field ", name, " of point ", j, ": ", g[q], " expected ", e[q] * scale);
            }
        }
        for (const auto& f : o.fields) {
            const F* src = cloud2::find(c, from.at(f.name));
            const bool cast = ouster && (f.name == "t" || f.name == "range");
            CHECK(f.datatype == (cast ? static_cast<int>(F::FLOAT32) : static_cast<int>(src->datatype)) && f.count == src->count, "type of field ", f.name);
        }
        did |= ouster;
        s.nontrivial(did && cloud2::points(c) >= 2);
        s.note() << cloud2::describe(c) << (ouster ? " OUSTER" : " CUSTOM") << (filter ? " filtered" : "") << "; ";
    }
}

PROPERTY(unknown_sensor, 200, 2000, "always") {
    shim::bus().reset();
    lidar_frame("lidar");
    const std::string t = s.pick({std::string("ouster"), std::string(""), std::string("VELODYNE"), std::string("OUSTER ")});
    shim::set_param(ns + "pointcloud_type", t);
    CHECK_THROWS((void)std::make_shared<serpent::PointcloudFormatter>(), "sensor type ", t);
    s.nontrivial();
    s.note() << t << s.draw(1000);
}

PROPERTY(filtering, 6000, 120000, "two or more filters that each remove or merge points") {
    shim::bus().reset();
    shim::bus().forward = true;
    Cloud c;
    bool voxel = s.boolean(), body = s.boolean(), range = s.boolean(), sor = s.boolean(), sample = s.chance(1, 3);
    if (s.chance(1, 10)) { voxel = body = range = sor = false; sample = true; }
    if (!(voxel || body || range || sor || sample)) range = true;
    auto add = [&](const std::string& n, int type) { F f; f.name = n; f.datatype = static_cast<std::uint8_t>(type); f.count = 1; f.offset = c.point_step; c.point_step += cloud2::width_of(type); c.fields.push_back(f); };
    const double leaf = s.pick({0.1, 0.25, 0.5, 1.0, 4.0});
    if (voxel) {
        for (const char* n : {"x", "y", "z"}) add(n, F::FLOAT32);
        if (s.boolean() || range) add("range", F::FLOAT32);
        if (s.boolean()) add("intensity", F::FLOAT32);
        if (s.boolean()) add("t", F::FLOAT32);
        c.height = 1; c.width = static_cast<std::uint32_t>(s.size(1, 40));
    } else {
        std::vector<cloud2::Want> want{{"x", {F::FLOAT32}}, {"y", {F::FLOAT32}}, {"z", {F::FLOAT32}}, {"id", {F::UINT32}}};
        if (range || s.boolean()) want.push_back({"range", {F::FLOAT32}});
        c = cloud2::cloud(s, want, 3, 40, false);
        if (c.width == 0) return;
        // PCL's box and outlier filters read x, y and z as adjacent, and take organised clouds as projections: not decided
        if (body || sor) for (auto& f : c.fields) for (int k = 0; k < 3; ++k) if (f.name == std::string(1, "xyz"[k])) f.offset = c.point_step + 4 * k;
        if (body || sor) c.point_step += 12;
        if (sor) { c.width *= c.height; c.height = 1; }
    }
    c.header.stamp = 1600000000000000ULL + s.draw(1000000000000ULL);
    c.header.frame_id = "lidar";
    c.is_dense = 1; c.is_bigendian = 0;
    c.row_step = c.point_step * c.width;
    c.data.resize(static_cast<std::size_t>(c.row_step) * c.height);
    const std::size_t n = cloud2::points(c);
    const double spread = s.pick({1.0, 3.0, 20.0});
    for (std::size_t i = 0; i < n; ++i) for (const auto& f : c.fields) {
        double v = 0;
        if (f.name == "x" || f.name == "y" || f.name == "z") {
            v = s.uniform(-spread, spread);
            if (voxel) { const double cell = std::floor(v / leaf); v = (cell + 0.05 + 0.9 * s.uniform(0, 1)) * leaf; }
        } else if (f.name == "id") v = static_cast<double>(i);
        else if (f.name == "range") v = voxel ? s.uniform(0, 12) : static_cast<double>(s.integer(0, 48)) * 0.25;
        else if (voxel) v = s.uniform(-5, 5);
        else v = cloud2::scalar(s, f.datatype);
        cloud2::set(c, f, i, v);
    }
    // configuration
    double vmin = 1;
    if (!voxel || s.boolean()) shim::set_param(ns + "voxel_grid_filter/enabled", voxel);
    if (voxel) { if (leaf != 0.1 || s.boolean()) shim::set_param(ns + "voxel_grid_filter/leaf_size", leaf); if (s.chance(1, 3)) { vmin = static_cast<double>(s.integer(1, 3)); shim::set_param(ns + "voxel_grid_filter/minimum_points_number_per_voxel", static_cast<int>(vmin)); } }
    Eigen::Vector3d bmin(0, 0, 0), bmax(0, 0, 0), bt(0, 0, 0), br(0, 0, 0);
    if (body) {
        shim::set_param(ns + "body_filter/enabled", true);
        for (int k = 0; k < 3; ++k) {
            const std::string a(1, "xyz"[k]);
            bmin[k] = static_cast<float>(s.uniform(-spread, 0.2)); bmax[k] = static_cast<float>(s.uniform(-0.2, spread));
            shim::set_param(ns + "body_filter/min/" + a, bmin[k]); shim::set_param(ns + "body_filter/max/" + a, bmax[k]);
            if (s.boolean()) { bt[k] = s.uniform(-1, 1); shim::set_param(ns + "body_filter/translation/" + a, bt[k]); }
            if (s.chance(1, 3)) { br[k] = s.uniform(-3, 3); shim::set_param(ns + "body_filter/rotation/r" + a, br[k]); }
        }
    }
    double rmin = 0, rmax = std::numeric_limits<double>::max();
    if (!range || s.boolean()) shim::set_param(ns + "range_filter/enabled", range);
    if (range) {
        if (s.boolean()) { rmin = static_cast<double>(s.integer(0, 24)) * 0.25; shim::set_param(ns + "range_filter/min", rmin); }
        if (s.boolean()) { rmax = static_cast<double>(s.integer(16, 48)) * 0.25; shim::set_param(ns + "range_filter/max", rmax); }
    }
    int mean_k = 1;
    double mul = 0;
    if (sor) {
        shim::set_param(ns + "statistical_outlier_removal/enabled", true);
        // PCL counts the point itself as one of the mean_k points, so that 1 (the default) leaves no neighbour: not decided
        { mean_k = static_cast<int>(s.integer(2, 6)); shim::set_param(ns + "statistical_outlier_removal/mean_k", mean_k); }
        // a multiplier of 0 is rejected by PCL (it reports the error and removes every point): not decided
        { mul = s.uniform(0.05, 2); shim::set_param(ns + "statistical_outlier_removal/stddev_mul_thresh", mul); }
    }
    int size = 3000, seed = 0;
    if (sample) {
        shim::set_param(ns + "random_sample_filter/enabled", true);
        if (s.chance(4, 5)) { size = static_cast<int>(s.integer(0, 30)); shim::set_param(ns + "random_sample_filter/sample_size", size); }
        if (s.boolean()) { seed = static_cast<int>(s.draw(1000)); shim::set_param(ns + "random_sample_filter/random_seed", seed); }
    }
    const std::string in = s.pick({std::string("formatter/formatted_pointcloud"), std::string("other")});
    serpent::PointcloudFilter node(in);
    const std::string out = node.output_topic()[0] == '/' ? node.output_topic() : ns + node.output_topic();

    // expected points
    int active = 0;
    std::vector<Values> pts;
    for (std::size_t i = 0; i < n; ++i) pts.push_back(values(c, i));
    auto xyz = [](const Values& v) { return Eigen::Vector3d(v.at("x")[0], v.at("y")[0], v.at("z")[0]); };
    if (voxel) {
        std::map<std::array<int, 3>, std::vector<Values>> cells;
        for (const auto& p : pts) { const Eigen::Vector3d q = xyz(p) / leaf; cells[{static_cast<int>(std::floor(q[0])), static_cast<int>(std::floor(q[1])), static_cast<int>(std::floor(q[2]))}].push_back(p); }
        std::vector<Values> next;
        for (const auto& [k, v] : cells) {
            if (static_cast<double>(v.size()) < vmin) continue;
            Values m = v[0];
            for (auto& [name, x] : m) { double t = 0; for (const auto& p : v) t += p.at(name)[0]; x = {t / static_cast<double>(v.size())}; }
            next.push_back(m);
        }
        active += next.size() < pts.size();
        pts = next;
        s.label("voxel grid");
    }
    if (body) {
        const Eigen::Matrix3d R = (Eigen::AngleAxisd(br[2], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(br[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(br[0], Eigen::Vector3d::UnitX())).toRotationMatrix();
        std::vector<Values> next;
        for (const auto& p : pts) {
            const Eigen::Vector3d q = R.transpose() * (xyz(p) - bt);
            double margin = 1e9, inside = true;
            for (int k = 0; k < 3; ++k) { margin = std::min({margin, std::abs(q[k] - bmin[k]), std::abs(q[k] - bmax[k])}); if (q[k] < bmin[k] || q[k] > bmax[k]) inside = false; }
            if (margin < 1e-4) return;
            if (!inside) next.push_back(p);
        }
        active += next.size() < pts.size();
        pts = next;
        s.label("body filter");
    }
    if (range) {
        std::vector<Values> next;
        for (const auto& p : pts) {
            const double r = p.at("range")[0];
            if (voxel && (std::abs(r - rmin) < 1e-5 || std::abs(r - rmax) < 1e-5)) return;
            if (r >= rmin && r <= rmax) next.push_back(p);
        }
        active += next.size() < pts.size();
        pts = next;
        s.label("range filter");
    }
    if (sor) {
        const int neighbours = mean_k - 1;
        if (static_cast<int>(pts.size()) < mean_k + 1) return;
        std::vector<double> d;
        for (std::size_t i = 0; i < pts.size(); ++i) {
            std::vector<double> e;
            for (std::size_t j = 0; j < pts.size(); ++j) if (i != j) e.push_back((xyz(pts[i]) - xyz(pts[j])).norm());
            std::sort(e.begin(), e.end());
            double t = 0;
            for (int k = 0; k < neighbours; ++k) t += e[k];
            d.push_back(t / neighbours);
        }
        double m = 0, v = 0;
        for (double x : d) m += x / static_cast<double>(d.size());
        for (double x : d) v += (x - m) * (x - m) / static_cast<double>(d.size() - 1);
        const double limit = m + mul * std::sqrt(v);
        if (v < 1e-6 * m * m) return;
        std::vector<Values> next;
        for (std::size_t i = 0; i < pts.size(); ++i) {
            if (std::abs(d[i] - limit) < 1e-3 * (1 + limit)) return;
            if (d[i] < limit) next.push_back(pts[i]);
        }
        active += next.size() < pts.size();
        pts = next;
        s.label("outlier removal");
    }
    const int repeats = static_cast<int>(s.integer(1, 2));
    for (int k = 0; k < repeats; ++k) {
        shim::bus().published.clear();
        c.header.stamp += 100000;
        const Cloud before = c;
        CHECK(shim::inject(ns + in, c) == 1, "subscription to ", in);
        pump();
        const auto got = shim::captured<Cloud>(out);
        CHECK(got.size() == 1, "one filtered cloud per cloud on ", out, ", got ", got.size());
        const Cloud& o = got[0];
        CHECK(o.header.stamp == c.header.stamp && o.header.frame_id == "lidar", "header of the filtered cloud");
        const std::size_t expect = sample ? std::min<std::size_t>(pts.size(), static_cast<std::size_t>(size)) : pts.size();
        CHECK(cloud2::points(o) == expect, cloud2::points(o), " points remain of ", n, ", expected ", expect, " (", voxel, body, range, sor, sample, " leaf ", leaf, " body ", bmin.transpose(), " to ", bmax.transpose(), " at ", bt.transpose(), " turned ", br.transpose(), " range ", rmin, " to ", rmax, " outliers ", mean_k, " ", mul, " sample ", size, " ", cloud2::describe(c), ")");
        if (sample && !voxel && !body && !range && !sor && n > static_cast<std::size_t>(size)) {
            // the selection is the one of the configured seed
            pcl::RandomSample<pcl::PCLPointCloud2> reference;
            reference.setSample(static_cast<unsigned int>(size)); reference.setSeed(static_cast<unsigned int>(seed));
            reference.setInputCloud(std::make_shared<Cloud>(c));
            Cloud r;
            reference.filter(r);
            CHECK(cloud2::points(r) == cloud2::points(o), "selection of another size");
            auto ids = [&](const Cloud& q) { std::vector<double> v; for (std::size_t i = 0; i < cloud2::points(q); ++i) v.push_back(values(q, i).at("id")[0]); std::sort(v.begin(), v.end()); return v; };
            CHECK(ids(r) == ids(o), "the random sample is not the one of seed ", seed);
            s.label("sample compared with its seed");
        }
        std::vector<bool> used(pts.size(), false);
        for (std::size_t i = 0; i < expect; ++i) {
            const Values g = values(o, i);
            bool found = false;
            for (std::size_t j = 0; j < pts.size() && !found; ++j) {
                if (used[j]) continue;
                bool eq = true;
                for (const auto& [name, x] : pts[j]) {
                    const auto it = g.find(name);
                    CHECK(it != g.end(), "field ", name, " lost");
                    for (std::size_t q = 0; q < x.size() && eq; ++q) eq = voxel ? std::abs(x[q] - it->second[q]) <= 1e-4 * (1 + std::abs(x[q])) : (x[q] == it->second[q] || (std::isnan(x[q]) && std::isnan(it->second[q])));
                    if (!eq) break;
                }
                if (eq) { used[j] = true; found = true; }
            }
            CHECK(found, "unexpected point ", show(g));
        }
    }
    if (sample) { active += static_cast<std::size_t>(size) < pts.size(); s.label("random sample"); }
    s.nontrivial(active >= 2);
    s.note() << n << " points to " << pts.size() << (sample ? " sampled" : "");
}

PROPERTY(filter_configuration, 400, 4000, "always") {
    shim::bus().reset();
    const auto k = s.draw(3);
    if (k == 0) { shim::set_param(ns + "random_sample_filter/enabled", true); shim::set_param(ns + "random_sample_filter/sample_size", -1 - static_cast<int>(s.draw(99))); CHECK_THROWS((void)std::make_shared<serpent::PointcloudFilter>(), "negative sample size"); }
    if (k == 1) { shim::set_param(ns + "random_sample_filter/enabled", true); shim::set_param(ns + "random_sample_filter/random_seed", -1 - static_cast<int>(s.draw(99))); CHECK_THROWS((void)std::make_shared<serpent::PointcloudFilter>(), "negative seed"); }
    if (k == 2) {
        shim::set_param(ns + "voxel_grid_filter/enabled", false);
        serpent::PointcloudFilter node;
        Cloud c = cloud2::cloud(s, {{"x", {F::FLOAT32}}, {"y", {F::FLOAT32}}, {"z", {F::FLOAT32}}});
        CHECK_THROWS(shim::inject(ns + "input/pointcloud", c), "no range field");
    }
    if (k == 3) {
        shim::set_param(ns + "normal_estimation/method", std::string("magic"));
        typedef serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal> Plain;
        CHECK_THROWS((void)std::make_shared<Plain>(), "unknown method");
    }
    s.nontrivial();
    s.note() << k << " " << s.draw(100);
}

PROPERTY(unit_vector_node, 600, 12000, "two or more points") {
    shim::bus().reset();
    serpent::PointcloudAddUnitVectors node("filter/filtered_pointcloud");
    Cloud c = cloud2::cloud(s, {{"x", {F::FLOAT32}}, {"y", {F::FLOAT32}}, {"z", {F::FLOAT32}}}, 3, 24, false);
    for (std::size_t i = 0; i < cloud2::points(c); ++i) cloud2::set(c, *cloud2::find(c, "x"), i, s.uniform(1, 20));
    CHECK(shim::inject(ns + "filter/filtered_pointcloud", c) == 1, "subscription");
    const auto got = shim::captured<Cloud>(node.output_topic());
    CHECK(got.size() == 1, "one cloud on ", node.output_topic());
    const Cloud& o = got[0];
    CHECK(cloud2::points(o) == cloud2::points(c) && o.fields.size() == c.fields.size() + 3, "points and fields");
    CHECK(o.header.stamp == c.header.stamp && o.header.frame_id == c.header.frame_id, "header");
    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
        const Values a = values(c, i), b = values(o, i);
        for (const auto& [n, x] : a) for (std::size_t k = 0; k < x.size(); ++k) CHECK(b.at(n)[k] == x[k] || std::isnan(x[k]), "field ", n);
        const Eigen::Vector3d p(a.at("x")[0], a.at("y")[0], a.at("z")[0]), u(b.at("ux")[0], b.at("uy")[0], b.at("uz")[0]);
        CHECK((u - p.normalized()).norm() < 1e-5, "unit vector of point ", i);
    }
    s.nontrivial(cloud2::points(c) >= 2);
    s.note() << cloud2::describe(c);
}

namespace {
template<typename In, typename Out, typename Extra>
void normals(pbt::Src& s, Extra extra) {
    shim::bus().reset();
    const bool radius = s.boolean();
    int k = 30;
    double r = 1.0;
    if (radius) { shim::set_param(ns + "normal_estimation/method", std::string("radius")); if (s.boolean()) { r = s.uniform(0.5, 3); shim::set_param(ns + "normal_estimation/radius", r); } }
    else { if (s.boolean()) shim::set_param(ns + "normal_estimation/method", std::string("knn")); if (s.chance(4, 5)) { k = static_cast<int>(s.integer(3, 10)); shim::set_param(ns + "normal_estimation/k", k); } }
    Eigen::Vector3d vp(0, 0, 0);
    for (int a = 0; a < 3; ++a) if (s.boolean()) { vp[a] = s.uniform(-20, 20); shim::set_param(ns + "normal_estimation/viewpoint/" + std::string(1, "xyz"[a]), vp[a]); }
    if (s.chance(1, 4)) shim::set_param(ns + "normal_estimation/threads", 2);
    serpent::PointcloudNormalEstimation<In, Out> node;
    pcl::PointCloud<In> c;
    const int n = static_cast<int>(s.integer(12, 40));
    const Eigen::Matrix3d R = gen::rotation(s, false);
    const double flat = s.pick({0.05, 0.3, 1.0});
    for (int i = 0; i < n; ++i) {
        In p{};
        const Eigen::Vector3d q = R * Eigen::Vector3d(s.uniform(-3, 3), s.uniform(-3, 3), flat * s.uniform(-1, 1)) + Eigen::Vector3d(3, -4, 5);
        p.x = static_cast<float>(q[0]); p.y = static_cast<float>(q[1]); p.z = static_cast<float>(q[2]);
        extra(p);
        c.push_back(p);
    }
    c.header.stamp = 1600000000000000ULL + s.draw(1000000ULL);
    c.header.frame_id = "lidar";
    Cloud m;
    pcl::toPCLPointCloud2(c, m);
    CHECK(shim::inject(ns + "input/pointcloud", m) == 1, "subscription");
    const auto got = shim::captured<pcl::PointCloud<Out>>(ns + "normal_estimation/pointcloud");
    CHECK(got.size() == 1, "one cloud with normals");
    const auto& o = got[0];
    CHECK(o.size() == c.size() && o.header.stamp == c.header.stamp && o.header.frame_id == "lidar", "points and header");
    int decided = 0;
    for (int i = 0; i < n; ++i) {
        CHECK(o[i].x == c[i].x && o[i].y == c[i].y && o[i].z == c[i].z, "point ", i, " moved");
        extra(c[i], o[i]);
        const Eigen::Vector3d p(c[i].x, c[i].y, c[i].z);
        std::vector<std::pair<double, int>> d;
        for (int j = 0; j < n; ++j) d.push_back({(Eigen::Vector3d(c[j].x, c[j].y, c[j].z) - p).norm(), j});
        std::sort(d.begin(), d.end());
        std::size_t count = std::min<std::size_t>(static_cast<std::size_t>(k), d.size());
        bool close = false;
        if (radius) { count = 0; for (auto& e : d) { close |= std::abs(e.first - r) < 1e-4; count += e.first <= r; } }
        else close = count < d.size() && d[count].first - d[count - 1].first < 1e-5;
        if (close || count < 3) continue;
        Eigen::Vector3d mean(0, 0, 0);
        for (std::size_t j = 0; j < count; ++j) mean += Eigen::Vector3d(c[d[j].second].x, c[d[j].second].y, c[d[j].second].z) / static_cast<double>(count);
        Eigen::Matrix3d C = Eigen::Matrix3d::Zero();
        for (std::size_t j = 0; j < count; ++j) { const Eigen::Vector3d e = Eigen::Vector3d(c[d[j].second].x, c[d[j].second].y, c[d[j].second].z) - mean; C += e * e.transpose() / static_cast<double>(count); }
        const Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(C);
        const Eigen::Vector3d w = es.eigenvalues();
        const Eigen::Vector3d nv(o[i].normal_x, o[i].normal_y, o[i].normal_z);
        CHECK(pbt::near(nv.norm(), 1.0, 1e-3), "normal of point ", i, " has length ", nv.norm());
        CHECK(nv.dot(C * nv) <= w[0] + 2e-3 * w[2], "normal of point ", i, ": spread ", nv.dot(C * nv), " along it, smallest ", w[0], " largest ", w[2]);
        CHECK((vp - p).dot(nv) >= -1e-3 * (vp - p).norm(), "normal of point ", i, " points away from the viewpoint");
        CHECK(pbt::near(o[i].curvature, w[0] / w.sum(), 2e-3), "curvature ", o[i].curvature, " expected ", w[0] / w.sum());
        ++decided;
    }
    s.nontrivial(decided >= 5);
    s.note() << n << " points, " << (radius ? "radius" : "knn");
}
struct NoExtra { template<typename T> void operator()(T&) const {} template<typename A, typename B> void operator()(const A&, const B&) const {} };
struct Unit {
    template<typename T> void operator()(T& p) const { const float n = std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z); p.ux = p.x / n; p.uy = p.y / n; p.uz = p.z / n; }
    template<typename A, typename B> void operator()(const A& a, const B& b) const { CHECK(a.ux == b.ux && a.uy == b.uy && a.uz == b.uz, "unit vector lost"); }
};
}
PROPERTY(normals_plain, 1500, 30000, "five or more normals decided") { normals<pcl::PointXYZ, pcl::PointNormal>(s, NoExtra{}); }
PROPERTY(normals_with_unit_vectors, 1000, 20000, "five or more normals decided") { normals<PointUnit, PointNormalUnit>(s, Unit{}); }
