// P32: callbacks that may run at the same time do not race. The programs run simulated drives (see p31.cpp) with the thread
// sanitizer, to which every subscription and every service is a thread of its own; each conflicting pair of accesses that
// nothing in the programs orders is reported, whatever the order in which they happened to run.
#define P32
#include "p31.cpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <opencv2/core.hpp>
#include <tbb/global_control.h>

extern "C" {
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count,
        int* mutex_count, int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace,
        unsigned long trace_size);
int __tsan_get_report_stack(void* report, unsigned long idx, void** trace, unsigned long trace_size);
}
namespace {
struct Race { bool found{false}; char what[64]; int n{0}; bool write[2]; void* trace[2][24]; };
Race race;
}
extern "C" __attribute__((no_sanitize("thread"))) const char* __tsan_default_options() {
    return "suppress_equal_stacks=0:suppress_equal_addresses=0:symbolize=0:exitcode=0:die_after_fork=0:report_thread_leaks=0:"
           "report_signal_unsafe=0:report_destroy_locked=1:log_path=/dev/null";
}
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void* report) {
    if (race.found) return;
    race.found = true;
    const char* d = "";
    int count, stacks, mops = 0, locs, mutexes, threads, unique;
    void* sleep[1];
    __tsan_get_report_data(report, &d, &count, &stacks, &mops, &locs, &mutexes, &threads, &unique, sleep, 1);
    int k = 0;
    for (; d && d[k] && k < 63; ++k) race.what[k] = d[k];
    race.what[k] = 0;
    race.n = 0;
    for (int i = 0; i < mops && i < 2; ++i) {
        int tid, size, write, atomic;
        void* addr;
        for (void*& p : race.trace[i]) p = nullptr;
        __tsan_get_report_mop(report, i, &tid, &addr, &size, &write, &atomic, race.trace[i], 24);
        race.write[i] = write;
        race.n = i + 1;
    }
    if (mops == 0)
        for (int i = 0; i < stacks && i < 2; ++i) {
            for (void*& p : race.trace[i]) p = nullptr;
            __tsan_get_report_stack(report, i, race.trace[i], 24);
            race.write[i] = false;
            race.n = i + 1;
        }
}

namespace {
// The innermost functions of /repo in a stack
std::string where(void* const* trace) {
    static std::map<void*, std::string> known;
    std::string out;
    int shown = 0;
    for (int i = 0; i < 24 && trace[i]; ++i) {
        auto it = known.find(trace[i]);
        if (it == known.end()) {
            std::string text;
            Dl_info info;
            if (dladdr(trace[i], &info) && info.dli_fname) {
                char cmd[512];
                std::snprintf(cmd, sizeof cmd, "addr2line -C -f -s -e '%s' 0x%lx 2>/dev/null", info.dli_fname,
                        static_cast<unsigned long>(static_cast<char*>(trace[i]) - static_cast<char*>(info.dli_fbase)) - 1);
                if (FILE* f = popen(cmd, "r")) {
                    char line[1024];
                    std::string function, place;
                    if (std::fgets(line, sizeof line, f)) function = line;
                    if (std::fgets(line, sizeof line, f)) place = line;
                    pclose(f);
                    while (!function.empty() && function.back() == '\n') function.pop_back();
                    while (!place.empty() && place.back() == '\n') place.pop_back();
                    if (function.size() > 60) function = function.substr(0, 60) + "...";
                    text = function + " (" + place + ")";
                }
            }
            it = known.emplace(trace[i], text).first;
        }
        if (it->second.empty() || it->second[0] == '?') continue;
        if (shown++ < 7) out += (out.empty() ? "" : " < ") + it->second;
    }
    return out;
}

// A scene of blobs at one distance in front of a pair of cameras that do not move
struct Cameras {
    static const int W = 160, H = 120;
    std::vector<uint8_t> left, right;
    double f{100}, baseline{0.2};
    int disparity{10};
};
Cameras cameras(pbt::Src& s) {
    Cameras c;
    c.disparity = static_cast<int>(s.integer(5, 20));
    uint64_t r = s.draw(~0ULL >> 1) + 1;
    const int w = Cameras::W + 32;
    std::vector<double> wide(static_cast<std::size_t>(w) * Cameras::H, 100.0);
    for (int b = 0; b < 80; ++b) {
        const int cx = static_cast<int>(pbt::splitmix(r) % w), cy = static_cast<int>(pbt::splitmix(r) % Cameras::H);
        const double a = pbt::splitmix(r) % 2 ? 90 : -80, size = 1.5 + static_cast<double>(pbt::splitmix(r) % 100) / 40;
        for (int y = std::max(0, cy - 10); y < std::min(Cameras::H, cy + 11); ++y)
            for (int x = std::max(0, cx - 10); x < std::min(w, cx + 11); ++x)
                wide[y * w + x] += a * std::exp(-((x - cx) * (x - cx) + (y - cy) * (y - cy)) / (2 * size * size));
    }
    auto view = [&](int shift) {
        std::vector<uint8_t> v;
        for (int y = 0; y < Cameras::H; ++y)
            for (int x = 0; x < Cameras::W; ++x) v.push_back(static_cast<uint8_t>(std::min(255.0, std::max(0.0, wide[y * w + x + shift]))));
        return v;
    };
    c.left = view(0);
    c.right = view(c.disparity);
    return c;
}
void publish_images(const Cameras& c, int64_t ns) {
    for (const bool left : {true, false}) {
        const std::string side = std::string("/serpent/input/stereo/") + (left ? "left" : "right");
        auto im = boost::make_shared<sensor_msgs::Image>();
        im->header.stamp = stamp(ns);
        im->header.frame_id = "camera";
        im->width = im->step = Cameras::W;
        im->height = Cameras::H;
        im->encoding = "mono8";
        im->data = left ? c.left : c.right;
        auto info = boost::make_shared<sensor_msgs::CameraInfo>();
        info->header = im->header;
        info->width = Cameras::W;
        info->height = Cameras::H;
        info->K[0] = info->K[4] = info->P[0] = info->P[5] = c.f;
        info->K[2] = info->P[2] = Cameras::W / 2;
        info->K[5] = info->P[6] = Cameras::H / 2;
        info->K[8] = info->P[10] = 1;
        if (!left) info->P[3] = -c.f * c.baseline;
        shim::publish(side + "/image", *im);
        shim::publish(side + "/camera_info", *info);
    }
}
}

PROPERTY(callbacks_do_not_race, 300, 6000, "four or more clouds with callbacks interleaved at random") {
    static tbb::global_control one_thread(tbb::global_control::max_allowed_parallelism, 1);
    cv::setNumThreads(1);
    shim::bus().reset();
    World w;
    Tolerance tol;
    Options o;
    w.clouds = static_cast<int>(s.size(3, 6));
    const bool stereo = s.chance(1, 2);
    draw_motion(s, w, false);
    draw_robot(s, w);
    draw_configuration(s, w, tol, o.threads);
    if (w.removed || stereo) { w.tr.v0.setZero(); w.tr.rate = 0; for (const char* a : {"x", "y", "z"}) param(std::string("velocity/linear/") + a, 0.0); }
    Cameras c;
    w.sweep_ns = static_cast<int64_t>(s.integer(40000000, 100000000));
    w.imu_ns = 5000000;
    w.imu_offset_ns = -static_cast<int64_t>(s.draw(2400000));
    if (stereo) {
        w.tr.amp.setZero();
        w.tr.wobble = 0;
        c = cameras(s);
        param("optimisation/factors/stereo", true);
        param("stereo_mask/enabled", false);
        param("stereo_tracking/detector/type", s.pick({std::string("GFTT"), std::string("ORB"), std::string("FAST")}));
        param("stereo_tracking/only_graph_frames", s.boolean());
        for (const char* n : {"debug/stereo/publish_stats", "debug/stereo/publish_intermediate_results", "debug/stereo/publish_points", "debug/optimisation/publish_stereo_points"})
            param(n, s.boolean());
        const int64_t step = s.pick({50000000, 100000000});
        for (int64_t t = w.start(0) - 20000000 + static_cast<int64_t>(s.draw(30000000)); t < w.start(w.clouds - 1) + w.period_ns; t += step)
            o.more.push_back({t + 15000000, 3, [&c, t] { publish_images(c, t); }});
        s.label("stereo");
    }
    scatter(s, w, static_cast<int>(s.integer(60, 90)), 1.3);
    o.random = s.chance(5, 6);
    o.concurrent_services = s.boolean();
    if (o.concurrent_services) s.label("services during the drive");
    s.label(o.random ? "random schedule" : "first in first out");
    race.found = false;
    std::string other;
    try {
        run_programs(s, w, o);
    } catch (const pbt::Fail& f) {
        other = f.what();  // what P31 decides
    }
    s.note() << w.clouds << " clouds" << (stereo ? ", stereo" : "") << (o.random ? ", random schedule" : "") << (other.empty() ? "" : "; " + other.substr(0, 100));
    if (race.found) {
        std::ostringstream os;
        os << race.what;
        for (int i = 0; i < race.n; ++i) os << (i ? " AND " : ": ") << (race.write[i] ? "write in " : "access in ") << where(race.trace[i]);
        throw pbt::Fail(os.str());
    }
    if (!other.empty()) { if (std::getenv("P32_SHOW")) throw pbt::Fail(other); throw pbt::Discard(); }
    s.nontrivial(o.random && w.clouds >= 4);
}
