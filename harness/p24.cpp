// P24: the mapping node against a model holding keyframes and their latest optimised poses.
#include <pcl_conversions/pcl_conversions.h>
#include <pcl_ros/point_cloud.h>
#include <serpent/mapping/mapping.hpp>

#include <map>
#include <set>
#include <tuple>

#include "mutex_use.hpp"
#include "gen.hpp"

namespace {
typedef XmlRpc::XmlRpcValue X;
typedef pcl::PCLPointCloud2 Wire;
const std::string ns = "/serpent/";
const char* const LOCAL = "/serpent/mapping/local_map";
const char* const GLOBAL = "/serpent/output/global_map";
const char* const GRAPH = "/serpent/output/pose_graph";

struct P { Eigen::Vector3d p, n, u; double id; };
struct Frame { Eigen::Matrix4d T; std::vector<P> points; };

template<typename PointT> void put_unit(PointT&, const Eigen::Vector3d&) {}
void put_unit(PointNormalUnit& q, const Eigen::Vector3d& u) { q.ux = static_cast<float>(u[0]); q.uy = static_cast<float>(u[1]); q.uz = static_cast<float>(u[2]); }
template<typename PointT> Eigen::Vector3d get_unit(const PointT&) { return Eigen::Vector3d::Zero(); }
Eigen::Vector3d get_unit(const PointNormalUnit& q) { return {q.ux, q.uy, q.uz}; }
template<typename PointT> P read(const PointT& q) {
    return {Eigen::Vector3d(q.x, q.y, q.z), Eigen::Vector3d(q.normal_x, q.normal_y, q.normal_z), get_unit(q), q.curvature};
}
std::vector<P> moved(const std::vector<P>& in, const Eigen::Matrix4d& T) {
    std::vector<P> out;
    const Eigen::Matrix3d R = T.block<3, 3>(0, 0);
    const Eigen::Vector3d t = T.block<3, 1>(0, 3);
    for (const P& p : in) out.push_back({R * p.p + t, R * p.n, R * p.u, p.id});
    return out;
}

struct Filter { bool on; double leaf; unsigned minimum; };

// The published cloud against the expected points. Every point carries a number of its own in its curvature.
template<typename PointT>
void compare(pbt::Src& s, const pcl::PointCloud<PointT>& got, const std::vector<P>& want, const Filter& f, bool unit, const char* what) {
    double big = 1.0;
    for (const P& p : want) big = std::max(big, p.p.norm());
    const double tol = 2e-6 * big;
    CHECK(got.points.size() == static_cast<std::size_t>(got.width) * got.height, what, ": ", got.width, " x ", got.height, " but ", got.points.size(), " points");
    if (!f.on) {
        CHECK(got.size() == want.size(), what, " has ", got.size(), " points, expected ", want.size());
        std::map<double, P> byid;
        for (const auto& q : got.points) CHECK(byid.emplace(q.curvature, read(q)).second, what, ": point ", q.curvature, " appears twice");
        for (const P& p : want) {
            const auto it = byid.find(p.id);
            CHECK(it != byid.end(), what, " lacks point ", p.id);
            CHECK((it->second.p - p.p).norm() <= tol, what, ": point ", p.id, " at ", it->second.p.transpose(), " expected ", p.p.transpose());
            CHECK((it->second.n - p.n).norm() <= 1e-4, what, ": normal of ", p.id, " is ", it->second.n.transpose(), " expected ", p.n.transpose());
            if (unit) CHECK((it->second.u - p.u).norm() <= 1e-4, what, ": unit vector of ", p.id, " is ", it->second.u.transpose(), " expected ", p.u.transpose());
        }
        return;
    }
    typedef std::tuple<long, long, long> Key;
    struct Cell { unsigned n{0}; Eigen::Vector3d sum{Eigen::Vector3d::Zero()}; double id{0}; };
    std::map<Key, Cell> cells;
    for (const P& p : want) {
        long k[3];
        for (int i = 0; i < 3; ++i) {
            const double v = p.p[i] / f.leaf;
            if (std::abs(v - std::round(v)) * f.leaf <= 2 * tol) { s.label("point on a voxel boundary, map not compared"); return; }
            k[i] = static_cast<long>(std::floor(v));
        }
        Cell& c = cells[Key(k[0], k[1], k[2])];
        ++c.n; c.sum += p.p; c.id += p.id;
    }
    std::size_t left = 0, merged = 0;
    for (const auto& [k, c] : cells) { left += c.n >= f.minimum; merged += c.n > 1; }
    CHECK(got.size() == left, what, " has ", got.size(), " points after filtering ", want.size(), ", expected ", left);
    if (merged) s.label("voxels holding several points");
    if (left < cells.size()) s.label("voxels with too few points");
    std::set<Key> seen;
    for (const auto& q : got.points) {
        // the mean of a cell lies in it, away from its faces by the points' own margin at least
        const Key k(static_cast<long>(std::floor(q.x / f.leaf)), static_cast<long>(std::floor(q.y / f.leaf)), static_cast<long>(std::floor(q.z / f.leaf)));
        const auto it = cells.find(k);
        CHECK(it != cells.end() && it->second.n >= f.minimum && seen.insert(k).second, what, ": filtered point ", q.x, " ", q.y, " ", q.z, " belongs to no voxel that should remain");
        const Eigen::Vector3d mean = it->second.sum / it->second.n;
        CHECK((Eigen::Vector3d(q.x, q.y, q.z) - mean).norm() <= tol, what, ": voxel mean ", q.x, " ", q.y, " ", q.z, " expected ", mean.transpose());
        CHECK(std::abs(q.curvature - it->second.id / it->second.n) <= 1e-4 * (1 + it->second.id), what, ": mean of the voxel's other values");
    }
}

template<typename PointT, bool UNIT>
void history(pbt::Src& s) {
    shim::bus().reset();
    // calibration
    const bool calibrated = s.draw(3) != 0;
    const Eigen::Isometry3d BL = calibrated ? gen::isometry(s, 2.0) : Eigen::Isometry3d::Identity();  // body to lidar
    const std::string frame = s.pick({std::string("lidar"), std::string("os_sensor")}), map_id = s.boolean() ? "map" : "world";
    {
        X lidar, frames, body, root, t, r;
        lidar["frame_id"] = frame;
        if (calibrated) {
            t["x"] = BL.translation().x(); t["y"] = BL.translation().y(); t["z"] = BL.translation().z();
            const Eigen::Quaterniond q(BL.rotation());
            r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z();
            lidar["translation"] = t; lidar["rotation"] = r;
        }
        frames["lidar"] = lidar;
        body["frames"] = frames;
        root["base_link"] = body;
        shim::set_param(ns + "body_frames", root);
    }
    if (map_id != "map") shim::set_param(ns + "map_frame_id", map_id);
    double distance = 1.0, rotation = M_PI / 6.0;
    if (s.boolean()) { distance = s.pick({0.0, 0.25, 2.0, 100.0}); shim::set_param(ns + "mapping/distance_threshold", distance); }
    if (s.boolean()) { rotation = s.pick({0.0, 0.05, 1.0, 4.0}); shim::set_param(ns + "mapping/rotation_threshold", rotation); }
    std::size_t number = 10;
    if (s.boolean()) { number = static_cast<std::size_t>(s.integer(1, 4)); shim::set_param(ns + "mapping/frame_extraction_number", static_cast<int>(number)); }
    const bool past = s.boolean();
    if (past || s.boolean()) shim::set_param(ns + "mapping/frame_extraction_method", std::string(past ? "PAST" : "NEARBY"));
    Filter local{true, 0.05, 1}, global{true, 0.05, 1};
    if (s.draw(3) != 0) { local.on = s.boolean(); shim::set_param(ns + "mapping/voxel_grid_filter/enabled_local", local.on); }
    if (s.draw(3) != 0) { global.on = s.boolean(); shim::set_param(ns + "mapping/voxel_grid_filter/enabled_global", global.on); }
    if (s.boolean()) { local.leaf = global.leaf = s.pick({0.5, 1.0, 3.0}); shim::set_param(ns + "mapping/voxel_grid_filter/leaf_size", local.leaf); }
    if (s.chance(1, 4)) { local.minimum = global.minimum = 2; shim::set_param(ns + "mapping/voxel_grid_filter/minimum_points_number_per_voxel", s.boolean() ? X(2.0) : X(2)); }
    if (local.on != global.on) s.label("one of the filters");
    s.label(past ? "past frames" : "nearby frames");

    serpent::Mapping<PointT> node;

    std::map<int64_t, Frame> map;                       // model
    std::vector<std::pair<int64_t, Eigen::Matrix4d>> trajectory;  // optimised body poses
    int64_t now = 1600000000LL * 1000000LL + static_cast<int64_t>(s.draw(1000000ULL));  // µs
    double id = 1;
    int corrections = 0, keyframes_skipped = 0;
    bool full_path_next = false;
    const int n = static_cast<int>(s.size(1, 12));
    auto time = [](int64_t us) { ros::Time t; t.fromNSec(static_cast<uint64_t>(us) * 1000ULL); return t; };
    auto lidar_pose = [&](const Eigen::Matrix4d& body) { return Eigen::Matrix4d(body * BL.matrix()); };
    for (int step = 0; step < n; ++step) {
        // services at any time, an empty map included, except between a rejected path and the next
        if (s.chance(1, 4) && !full_path_next) {
            std_srvs::Empty::Request q; std_srvs::Empty::Response r;
            shim::bus().published.clear();
            CHECK(shim::call("/serpent/publish_map", q, r), "publish_map");
            const auto got = shim::captured<pcl::PointCloud<PointT>>(GLOBAL);
            CHECK(got.size() == 1, "one global map per call, got ", got.size());
            std::vector<P> want;
            for (const auto& [t, f] : map) for (const P& p : moved(f.points, f.T)) want.push_back(p);
            if (!map.empty()) CHECK(got[0].header.frame_id == map_id, "global map in frame ", got[0].header.frame_id);
            compare(s, got[0], want, global, UNIT, "global map");
            if (map.empty()) s.label("empty map published");
        }
        if (s.chance(1, 4) && !full_path_next) {
            std_srvs::Empty::Request q; std_srvs::Empty::Response r;
            shim::bus().published.clear();
            CHECK(shim::call("/serpent/publish_pose_graph", q, r), "publish_pose_graph");
            const auto got = shim::captured<serpent::PoseGraph>(GRAPH);
            CHECK(got.size() == 1, "one pose graph per call, got ", got.size());
            CHECK(got[0].clouds.size() == map.size() && got[0].poses.size() == map.size(), "pose graph of ", got[0].clouds.size(), " clouds and ", got[0].poses.size(), " poses for ", map.size(), " frames");
            std::size_t i = 0;
            for (const auto& [t, f] : map) {
                const auto& p = got[0].poses[i];
                CHECK(p.header.stamp == time(t), "pose graph pose ", i, " stamped ", p.header.stamp, " expected ", time(t));
                const Eigen::Vector3d pos(p.pose.pose.position.x, p.pose.pose.position.y, p.pose.pose.position.z);
                const auto& o = p.pose.pose.orientation;
                CHECK((pos - Eigen::Vector3d(f.T.block<3, 1>(0, 3))).norm() <= 1e-9 * (1 + pos.norm()), "pose graph position ", i, ": ", pos.transpose(), " expected ", f.T.block<3, 1>(0, 3).transpose());
                CHECK(gen::max_diff(Eigen::Quaterniond(o.w, o.x, o.y, o.z).toRotationMatrix(), Eigen::Matrix3d(f.T.block<3, 3>(0, 0))) <= 1e-9, "pose graph orientation ", i);
                pcl::PointCloud<PointT> cloud;
                pcl::fromROSMsg(got[0].clouds[i], cloud);
                CHECK(got[0].clouds[i].header.stamp == time(t), "pose graph cloud ", i, " stamp");
                CHECK(cloud.size() == f.points.size(), "pose graph cloud ", i, " has ", cloud.size(), " points");
                for (std::size_t k = 0; k < cloud.size(); ++k) {
                    const P a = read(cloud[k]);
                    CHECK(a.id == f.points[k].id && a.p == f.points[k].p && a.n == f.points[k].n && (!UNIT || a.u == f.points[k].u), "pose graph cloud ", i, " point ", k);
                }
                ++i;
            }
        }
        // the vehicle moves: a new pose relative to the last
        now += s.integer(1, 200000);
        Eigen::Matrix4d pose = Eigen::Matrix4d::Identity();
        if (trajectory.empty()) { if (s.boolean()) pose = gen::isometry(s, 20.0).matrix(); }
        else {
            const double scale = s.pick({0.0, 0.3, 1.0, 3.0});
            Eigen::Vector3d rv = gen::vec3(s, 1.0);
            const double angle = s.pick({0.0, 0.03, 0.4, 0.9, 2.0});
            rv = rv.norm() > 0 ? Eigen::Vector3d(rv.normalized() * angle) : Eigen::Vector3d::Zero();
            pose = trajectory.back().second * gen::make_iso(gen::rodrigues(rv), gen::vec3(s, 1.0) * scale).matrix();
        }
        trajectory.emplace_back(now, pose);
        // the optimiser changes past poses
        std::set<std::size_t> include;
        const int mode = full_path_next ? 2 : static_cast<int>(s.draw(2));
        full_path_next = false;
        for (std::size_t i = 0; i + 1 < trajectory.size(); ++i) {
            if (mode == 0) break;
            if (mode == 1 && s.boolean()) continue;
            include.insert(i);
            if (s.boolean()) {
                trajectory[i].second = trajectory[i].second * gen::make_iso(gen::rodrigues(gen::vec3(s, 0.2)), gen::vec3(s, 1.0)).matrix();
                ++corrections;
            }
        }
        const bool lost = s.chance(1, 25), empty = !lost && s.chance(1, 40);
        nav_msgs::Path path;
        path.header.stamp = time(now);
        path.header.frame_id = map_id;
        auto add = [&](std::size_t i) {
            geometry_msgs::PoseStamped p;
            p.header.stamp = time(trajectory[i].first);
            const Eigen::Matrix4d& T = trajectory[i].second;
            p.pose.position.x = T(0, 3); p.pose.position.y = T(1, 3); p.pose.position.z = T(2, 3);
            Eigen::Quaterniond q(Eigen::Matrix3d(T.block<3, 3>(0, 0)));
            if (s.boolean()) q.coeffs() = -q.coeffs();
            p.pose.orientation.w = q.w(); p.pose.orientation.x = q.x(); p.pose.orientation.y = q.y(); p.pose.orientation.z = q.z();
            path.poses.push_back(p);
        };
        if (!empty) for (auto i : include) add(i);
        if (!lost && !empty) add(trajectory.size() - 1);
        // the cloud
        pcl::PointCloud<PointT> cloud;
        std::vector<P> points;
        const int count = static_cast<int>(s.size(0, 8));
        for (int i = 0; i < count; ++i) {
            PointT q;
            Eigen::Vector3d x = gen::vec3(s, 5.0) + Eigen::Vector3d(0.0173, 0.0291, 0.0137), nn = gen::vec3(s, 1.0), u = gen::vec3(s, 1.0);
            if (nn.norm() < 1e-3) nn = Eigen::Vector3d::UnitZ();
            if (u.norm() < 1e-3) u = Eigen::Vector3d::UnitX();
            nn.normalize(); u.normalize();
            q.x = static_cast<float>(x[0]); q.y = static_cast<float>(x[1]); q.z = static_cast<float>(x[2]);
            q.normal_x = static_cast<float>(nn[0]); q.normal_y = static_cast<float>(nn[1]); q.normal_z = static_cast<float>(nn[2]);
            put_unit(q, u);
            q.curvature = static_cast<float>(id++);
            cloud.push_back(q);
            points.push_back(read(q));
        }
        cloud.header.stamp = static_cast<uint64_t>(now);
        cloud.header.frame_id = frame;

        // reference
        bool undecided = false;
        std::map<int64_t, Frame> before = map;
        const Eigen::Matrix4d L = lidar_pose(pose);
        for (auto i : include) { auto it = map.find(trajectory[i].first); if (it != map.end()) it->second.T = lidar_pose(trajectory[i].second); }
        bool keyframe = map.empty();
        if (!keyframe) {
            const Eigen::Matrix4d& last = map.rbegin()->second.T;
            const double d = (L - last).block<3, 1>(0, 3).norm(), a = gen::angle_between(last.block<3, 3>(0, 0), L.block<3, 3>(0, 0));
            keyframe = d > distance || a > rotation;
            const bool neard = std::abs(d - distance) < 1e-6, neara = std::abs(a - rotation) < 1e-6;
            if ((neard && !(a > rotation + 1e-6)) || (neara && !(d > distance + 1e-6))) undecided = true;
        }
        if (keyframe) map[now] = Frame{L, points}; else ++keyframes_skipped;

        shim::bus().published.clear();
        auto send = [&] {
            if (s.boolean()) { shim::inject(ns + "normal_estimation/pointcloud", cloud); shim::inject(ns + "optimisation/path_changes", path); }
            else { shim::inject(ns + "optimisation/path_changes", path); shim::inject(ns + "normal_estimation/pointcloud", cloud); }
        };
        CHECK(shim::bus().subs.count(ns + "normal_estimation/pointcloud") == 1 && shim::bus().subs.count(ns + "optimisation/path_changes") == 1, "subscriptions");
        if (lost || empty) {
            CHECK_THROWS(send(), "a path without the cloud's pose was accepted");
            CHECK(shim::captured<pcl::PointCloud<PointT>>(LOCAL).empty(), "a rejected cloud gave a map");
            s.label(empty ? "empty path" : "path without the cloud's pose");
            // no frame of the rejected cloud; corrections of that path come again with the next
            map = before;
            full_path_next = true;
            continue;
        }
        if (undecided) { s.label("at a threshold, not decided"); return; }
        send();
        const auto got = shim::captured<pcl::PointCloud<PointT>>(LOCAL);
        CHECK(got.size() == 1, "one local map per cloud, got ", got.size());
        CHECK(got[0].header.frame_id == frame, "local map in frame ", got[0].header.frame_id);
        CHECK(got[0].header.stamp == static_cast<uint64_t>(now), "local map stamp ", got[0].header.stamp, " expected ", now);
        // selected frames
        std::vector<P> want;
        std::vector<std::pair<double, int64_t>> order;
        for (const auto& [t, f] : map) order.emplace_back(past ? static_cast<double>(now - t) : Eigen::Vector3d((f.T - L).block<3, 1>(0, 3)).norm(), t);
        std::sort(order.begin(), order.end());
        bool tie = false;
        if (order.size() > number) {
            tie = !past && std::abs(order[number].first - order[number - 1].first) < 1e-4 * (1 + pose.block<3, 1>(0, 3).norm());
            order.resize(number);
            s.label("more frames than extracted");
        }
        if (tie) { s.label("equally near frames, local map not compared"); continue; }
        for (const auto& [d, t] : order) for (const P& p : moved(map.at(t).points, gen::inverse4(L) * map.at(t).T)) want.push_back(p);
        compare(s, got[0], want, local, UNIT, "local map");
    }
    if (keyframes_skipped) s.label("clouds not added");
    s.nontrivial(map.size() >= 2 && corrections > 0);
    s.note() << n << " clouds, " << map.size() << " frames, " << corrections << " corrections, thresholds " << distance << " m " << rotation << " rad, " << number << (past ? " past" : " nearby");
}
}

PROPERTY(histories_normals, 3000, 60000, "two or more keyframes and a corrected pose") { history<pcl::PointNormal, false>(s); }
PROPERTY(histories_unit_vectors, 3000, 60000, "two or more keyframes and a corrected pose") { history<PointNormalUnit, true>(s); }

PROPERTY(rejected_settings, 200, 2000, "an unusable setting") {
    shim::bus().reset();
    X lidar, frames, body, root;
    lidar["frame_id"] = std::string("lidar");
    frames["lidar"] = lidar; body["frames"] = frames; root["base_link"] = body;
    shim::set_param(ns + "body_frames", root);
    const int what = static_cast<int>(s.draw(2));
    if (what == 0) {
        const std::string m = s.pick({std::string("NEAREST"), std::string(""), std::string("past"), std::string("NEARBY "), std::string("nearby")});
        shim::set_param(ns + "mapping/frame_extraction_method", m);
        CHECK_THROWS(serpent::Mapping<pcl::PointNormal>(), "frame extraction method ", m);
    } else if (what == 1) {
        const int k = -static_cast<int>(s.size(0, 100));
        shim::set_param(ns + "mapping/frame_extraction_number", k);
        CHECK_THROWS(serpent::Mapping<pcl::PointNormal>(), "frame extraction number ", k);
    } else {
        const std::string m = s.pick({std::string("NEARBY"), std::string("PAST")});
        CHECK(serpent::to_frame_extraction_method(m) == (m == "PAST" ? serpent::FrameExtractionMethod::PAST : serpent::FrameExtractionMethod::NEARBY), m);
    }
    s.nontrivial(what < 2);
}
