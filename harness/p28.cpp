// P28: the file conversion services against a model of files and of the messages on each topic.
#include <dirent.h>
#include <pcl_conversions/pcl_conversions.h>
#include <pcl_ros/point_cloud.h>
#include <pcl/console/print.h>
#include <pointcloud_tools/pointcloud_file_converter.hpp>
#include <sys/stat.h>

#include <map>

#include "cloud2.hpp"

namespace {
using cloud2::F;
typedef pcl::PCLPointCloud2 Cloud;
typedef pct::PointcloudFileConverter Node;

// Scratch folder of one case.
struct Folder {
    std::string path;
    Folder() {
        char exe[4096];
        const ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        std::string t = std::string(exe, n > 0 ? n : 0);
        t = t.substr(0, t.rfind('/')) + "/scratch-XXXXXX";
        if (!mkdtemp(t.data())) throw pbt::Fail("harness: no scratch folder");
        path = t;
    }
    ~Folder() {
        if (DIR* d = opendir(path.c_str())) {
            while (const dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
            closedir(d);
        }
        rmdir(path.c_str());
    }
};
bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }

// Whether a request was answered with success.
template<typename Q, typename R>
bool request(const std::string& service, Q& q, R& r) {
    try { return shim::call(service, q, r); } catch (const std::out_of_range&) { throw; } catch (const std::exception&) { return false; }
}

// Field layout in offset order, as sensors and PCL make them; gaps between fields are allowed.
Cloud make(pbt::Src& s, const std::string& ext) {
    std::vector<cloud2::Want> want;
    Cloud c;
    if (ext == "pcd") {
        if (s.chance(5, 6)) for (const char* n : {"x", "y", "z"}) want.push_back({n, {F::FLOAT32, F::FLOAT32, F::FLOAT64}});
        static const std::vector<std::string> names{"intensity", "t", "ring", "rgb", "label", "a"};
        for (const auto& n : names) if (s.chance(1, 3)) want.push_back({n, cloud2::types()});
        if (want.empty()) want.push_back({"x", {F::FLOAT32}});
    } else {
        for (const char* n : {"x", "y", "z"}) want.push_back({n, {F::FLOAT32}});
        if (s.boolean() && ext == "ply") for (const char* n : {"normal_x", "normal_y", "normal_z", "curvature"}) want.push_back({n, {F::FLOAT32}});
        if (s.boolean() && ext == "ply") want.push_back({"intensity", {F::FLOAT32}});
    }
    const bool gaps = ext == "pcd" && s.boolean();
    std::uint32_t off = 0;
    for (const auto& w : want) {
        F f; f.name = w.name; f.datatype = static_cast<std::uint8_t>(s.pick(w.types));
        f.count = ext == "pcd" && s.chance(1, 8) && w.name == "a" ? 3 : 1;
        if (gaps) off += static_cast<std::uint32_t>(s.draw(4));
        f.offset = off;
        off += cloud2::width_of(f.datatype) * f.count;
        c.fields.push_back(f);
    }
    c.point_step = off + (gaps ? static_cast<std::uint32_t>(s.draw(6)) : 0);
    c.height = s.chance(1, 3) ? static_cast<std::uint32_t>(s.integer(2, 4)) : 1;
    c.width = static_cast<std::uint32_t>(s.size(1, 20));
    c.row_step = c.point_step * c.width;
    c.data.assign(static_cast<std::size_t>(c.row_step) * c.height, 0xA5);
    for (std::size_t i = 0; i < cloud2::points(c); ++i)
        for (const auto& f : c.fields)
            for (std::uint32_t k = 0; k < f.count; ++k) { F g = f; g.offset += k * cloud2::width_of(f.datatype); cloud2::set(c, g, i, cloud2::scalar(s, f.datatype)); }
    c.header.frame_id = s.pick({std::string("lidar"), std::string("map"), std::string("")});
    c.header.stamp = 1600000000000000ULL + s.draw(1000000000ULL);
    c.is_dense = 1; c.is_bigendian = 0;
    if (gaps) s.label("gaps between fields");
    if (c.height > 1) s.label("organised");
    return c;
}
// The same points and values; ply and ifs files hold no organisation.
void same(const Cloud& got, const Cloud& want, const std::string& ext, const std::string& what) {
    cloud2::consistent(got);
    CHECK(cloud2::points(got) == cloud2::points(want), what, ": ", cloud2::points(got), " points, expected ", cloud2::points(want));
    if (ext == "pcd") CHECK(got.width == want.width && got.height == want.height, what, ": ", got.width, " x ", got.height, " expected ", want.width, " x ", want.height);
    for (const F& f : want.fields) {
        const F* g = cloud2::find(got, f.name);
        CHECK(g, what, ": field ", f.name, " is lost");
        CHECK(g->datatype == f.datatype, what, ": field ", f.name, " has type ", int(g->datatype), " expected ", int(f.datatype));
        CHECK(std::max(1u, g->count) == std::max(1u, f.count), what, ": field ", f.name, " holds ", g->count, " values");
        const std::size_t bytes = static_cast<std::size_t>(cloud2::width_of(f.datatype)) * f.count;
        for (std::size_t i = 0; i < cloud2::points(want); ++i)
            CHECK(std::memcmp(cloud2::at(got, *g, i), cloud2::at(want, f, i), bytes) == 0, what, ": field ", f.name, " of point ", i, " is ", cloud2::get(got, *g, i), " expected ", cloud2::get(want, f, i));
    }
}
}

PROPERTY(histories, 1500, 30000, "a file loaded, a request rejected, and a file overwritten or a second load") {
    pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
    shim::bus().reset();
    Folder dir;
    Node node;
    ros::NodeHandle nh("serpent");
    std::map<std::string, Cloud> files;  // by path
    const std::vector<std::string> topics{"/points", "/cloud", "/node/relative"};
    std::map<std::string, Cloud> live;  // last message on each topic
    int loads = 0, rejected = 0, overwritten = 0;
    const int n = static_cast<int>(s.size(4, 20));
    auto topic_name = [&](const std::string& t) { return t == "/node/relative" ? std::string("relative") : t; };
    for (int k = 0; k < n; ++k) {
        const int op = k < 2 && s.boolean() ? 0 : static_cast<int>(s.draw(9));
        const std::string topic = s.pick(topics);
        if (op < 2) {
            // somebody publishes
            const Cloud c = make(s, s.pick({std::string("pcd"), std::string("ply"), std::string("ifs")}));
            if (s.boolean()) nh.advertise<Cloud>(topic, 1).publish(c);
            else { sensor_msgs::PointCloud2 m; pcl_conversions::fromPCL(c, m); nh.advertise<sensor_msgs::PointCloud2>(topic, 1).publish(m); }
            live[topic] = c;
        } else if (op < 6) {
            pointcloud_tools::message_to_file::Request q; pointcloud_tools::message_to_file::Response r;
            q.topic = topic_name(topic); q.timeout = s.pick({0.0, 0.1, 5.0}); q.is_pcl_type = s.boolean();
            const std::string ext = s.pick({std::string("pcd"), std::string("pcd"), std::string("pcd"), std::string("ply"), std::string("ifs")});
            std::string path = dir.path + "/" + s.pick({std::string("a"), std::string("b"), std::string("c.d"), std::string("with space")}) + "." + ext;
            const int fault = static_cast<int>(s.draw(9));
            if (fault == 0) { path = dir.path + "/u" + s.pick({std::string(""), std::string(".txt"), std::string(".xyz"), std::string(".las"), std::string(".pcd.gz"), std::string(".obj"), std::string(".pcd.")}); s.label("unsupported format"); }
            if (fault == 1) { path = dir.path + "/missing/a." + ext; s.label("missing folder"); }
            const auto it = live.find(topic);
            const bool none = it == live.end();
            if (!none && fault > 1 && ext != "pcd") {  // formats are asked to hold only what they can
                bool plain = true;
                for (const auto& f : it->second.fields) plain = plain && f.datatype == F::FLOAT32 && f.count == 1 && f.name != "t" && f.name != "ring" && f.name != "rgb" && f.name != "label" && f.name != "a";
                if (ext == "ifs") plain = plain && it->second.fields.size() == 3;
                plain = plain && cloud2::find(it->second, "x") && cloud2::find(it->second, "y") && cloud2::find(it->second, "z") && it->second.point_step == 4 * it->second.fields.size();
                if (!plain) continue;
            }
            q.filepath = path;
            const bool done = request("/node/save_pointcloud", q, r);
            if (none || fault <= 1) {
                CHECK(!done, "saving ", none ? "from a topic without a message" : "to " + path, " reported as done: ", r.result_msg);
                if (none) { s.label("no message"); CHECK(exists(path) == (files.count(path) > 0), "a file appeared without a cloud: ", path); }
                ++rejected;
                continue;
            }
            CHECK(done, "saving ", path, " failed");
            CHECK(exists(path), "saved file ", path, " does not exist");
            overwritten += files.count(path);
            Cloud c = it->second;
            if (ext == "ifs") c.fields.erase(std::remove_if(c.fields.begin(), c.fields.end(), [](const F& f) { return f.name != "x" && f.name != "y" && f.name != "z"; }), c.fields.end());
            files[path] = c;
            CHECK(r.result_msg.find(std::to_string(cloud2::points(c))) != std::string::npos, "result message: ", r.result_msg);
        } else {
            pointcloud_tools::file_to_message::Request q; pointcloud_tools::file_to_message::Response r;
            q.topic = topic_name(topic); q.frame_id = s.pick({std::string("lidar"), std::string("map"), std::string("")}); q.latch = s.boolean(); q.as_pcl_type = s.boolean();
            const int fault = static_cast<int>(s.draw(7));
            std::string path;
            if (fault <= 2 || files.empty()) {
                const std::string ext = s.pick({std::string("pcd"), std::string("ply"), std::string("ifs")});
                switch (fault) {
                    case 0: path = dir.path + "/none." + ext; s.label("missing file"); break;
                    case 1: {
                        path = dir.path + "/text" + s.pick({std::string(""), std::string(".txt"), std::string(".xyz"), std::string(".pcd.gz")});
                        std::ofstream(path) << "1 2 3\n"; s.label("unsupported format");
                        break;
                    }
                    default: {
                        path = dir.path; s.label("folder");
                    }
                }
            } else {
                auto it = files.begin();
                std::advance(it, s.draw(files.size() - 1));
                path = it->first;
            }
            q.filepath = path;
            const std::size_t before = shim::count(topic);
            ros::Time::clock() = ros::Time(1000 + static_cast<std::uint32_t>(k), 1000u * static_cast<std::uint32_t>(s.draw(999999)));
            const bool done = request("/node/load_pointcloud", q, r);
            const auto got = shim::captured<Cloud>(topic);
            const auto known = files.find(path);
            if (known == files.end()) {
                CHECK(!done, "loading ", path, " reported as done: ", r.result_msg);
                CHECK(got.size() == before, "a cloud published from ", path);
                ++rejected;
                continue;
            }
            CHECK(done, "loading ", path, " failed");
            CHECK(got.size() == before + 1, "one message per load, got ", got.size() - before);
            const std::string ext = path.substr(path.rfind('.') + 1);
            same(got.back(), known->second, ext, "loaded " + ext);
            CHECK(got.back().header.frame_id == q.frame_id, "frame ", got.back().header.frame_id, " expected ", q.frame_id);
            CHECK(got.back().header.stamp == ros::Time::now().toNSec() / 1000u, "stamp ", got.back().header.stamp, " at ", ros::Time::now().toNSec(), " ns");
            CHECK(r.result_msg.find(std::to_string(cloud2::points(known->second))) != std::string::npos, "result message: ", r.result_msg);
            live[topic] = got.back();
            auto& fields = live[topic].fields;  // PCL names the gaps of a file "_"
            fields.erase(std::remove_if(fields.begin(), fields.end(), [](const F& f) { return f.name == "_"; }), fields.end());
            ++loads;
            s.label("loaded " + ext);
        }
    }
    s.nontrivial(loads > 0 && rejected > 0 && (overwritten > 0 || loads > 1));
    s.note() << n << " operations, " << loads << " loads, " << overwritten << " overwritten, " << rejected << " rejected";
}
