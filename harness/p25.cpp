// P25: camera tools against per-pixel and per-parameter models.
#include <camera_tools/change_frame_id.hpp>
#include <camera_tools/image_operations.hpp>
#include <camera_tools/publish_info.hpp>
#undef CAMERA_TOOLS_SPLIT_IMAGE_HPP
#include <camera_tools/split_image.hpp>

#include "gen.hpp"

namespace {
typedef XmlRpc::XmlRpcValue X;
const std::vector<std::pair<std::string, int>> encodings{{"mono8", CV_8UC1}, {"rgb8", CV_8UC3}, {"bgr8", CV_8UC3}, {"mono16", CV_16UC1}, {"32FC1", CV_32FC1}, {"bgra8", CV_8UC4}};
cv::Mat image(pbt::Src& s, int w, int h, int type) {
    cv::Mat m(h, w, type);
    uint64_t x = s.draw(1u << 30);
    for (int r = 0; r < h; ++r) for (std::size_t c = 0; c < m.cols * m.elemSize(); ++c) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; m.ptr<uchar>(r)[c] = static_cast<uchar>(x >> 40); }
    return m;
}
sensor_msgs::Image message(pbt::Src& s, const cv::Mat& m, const std::string& enc) {
    sensor_msgs::Image o;
    o.header.seq = static_cast<uint32_t>(s.draw(9));
    o.header.stamp.sec = static_cast<uint32_t>(s.draw(2000000000ULL));
    o.header.stamp.nsec = static_cast<uint32_t>(s.draw(999999999ULL));
    o.header.frame_id = s.pick({std::string("camera"), std::string("")});
    o.height = m.rows; o.width = m.cols; o.encoding = enc;
    const uint32_t row = m.cols * static_cast<uint32_t>(m.elemSize()), pad = s.chance(1, 3) ? static_cast<uint32_t>(s.integer(1, 8) * m.elemSize1()) : 0;
    o.step = row + pad;
    o.data.assign(static_cast<std::size_t>(o.step) * o.height, 0xAB);
    for (int r = 0; r < m.rows; ++r) std::copy_n(m.ptr<uchar>(r), row, o.data.begin() + static_cast<std::size_t>(r) * o.step);
    return o;
}
bool pixel(const cv::Mat& a, int ra, int ca, const cv::Mat& b, int rb, int cb) {
    return std::memcmp(a.ptr<uchar>(ra) + ca * a.elemSize(), b.ptr<uchar>(rb) + cb * b.elemSize(), a.elemSize()) == 0;
}
enum Op { CW90, CW180, CW270, HORIZ, VERT, BOTH };
const char* const names[] = {"90 clockwise", "180", "270 clockwise", "flip horizontally", "flip vertically", "flip both"};
// where pixel (u, v) of a w by h image goes
void place(Op op, int w, int h, int u, int v, int& nu, int& nv) {
    switch (op) {
        case CW90: nu = h - 1 - v; nv = u; break;
        case CW180: nu = w - 1 - u; nv = h - 1 - v; break;
        case CW270: nu = v; nv = w - 1 - u; break;
        case HORIZ: nu = w - 1 - u; nv = v; break;
        case VERT: nu = u; nv = h - 1 - v; break;
        case BOTH: nu = w - 1 - u; nv = h - 1 - v; break;
    }
}
bool swaps(Op op) { return op == CW90 || op == CW270; }
cv::Mat model(Op op, const cv::Mat& m) {
    cv::Mat o(swaps(op) ? m.cols : m.rows, swaps(op) ? m.rows : m.cols, m.type());
    for (int v = 0; v < m.rows; ++v) for (int u = 0; u < m.cols; ++u) {
        int nu, nv;
        place(op, m.cols, m.rows, u, v, nu, nv);
        std::memcpy(o.ptr<uchar>(nv) + nu * o.elemSize(), m.ptr<uchar>(v) + u * m.elemSize(), m.elemSize());
    }
    return o;
}
void same(const cv::Mat& a, const cv::Mat& b, const std::string& what) {
    CHECK(a.rows == b.rows && a.cols == b.cols && a.type() == b.type(), what, ": size ", a.cols, "x", a.rows, " expected ", b.cols, "x", b.rows);
    for (int v = 0; v < a.rows; ++v) for (int u = 0; u < a.cols; ++u) CHECK(pixel(a, v, u, b, v, u), what, ": pixel ", u, ",", v);
}
std::shared_ptr<camera_tools::ImageOperation> make(Op op, bool degrees, int turns) {
    switch (op) {
        case CW90: return degrees ? std::make_shared<camera_tools::Rotate>(90 + 360 * turns) : std::make_shared<camera_tools::Rotate>(cv::ROTATE_90_CLOCKWISE);
        case CW180: return degrees ? std::make_shared<camera_tools::Rotate>(180 + 360 * turns) : std::make_shared<camera_tools::Rotate>(cv::ROTATE_180);
        case CW270: return degrees ? std::make_shared<camera_tools::Rotate>(270 + 360 * turns) : std::make_shared<camera_tools::Rotate>(cv::ROTATE_90_COUNTERCLOCKWISE);
        case HORIZ: return std::make_shared<camera_tools::Flip>(camera_tools::Flip::FLIP_HORIZ);
        case VERT: return std::make_shared<camera_tools::Flip>(camera_tools::Flip::FLIP_VERT);
        default: return std::make_shared<camera_tools::Flip>(camera_tools::Flip::FLIP_BOTH);
    }
}
sensor_msgs::CameraInfo calibration(pbt::Src& s, int w, int h) {
    sensor_msgs::CameraInfo c;
    c.header.stamp.sec = static_cast<uint32_t>(s.draw(1000));
    c.header.frame_id = "camera";
    c.width = w; c.height = h;
    c.distortion_model = "plumb_bob";
    c.D.assign(5, 0.0);
    c.K[0] = s.uniform(10, 900); c.K[4] = s.uniform(10, 900);
    c.K[2] = s.real(0, w); c.K[5] = s.real(0, h); c.K[8] = 1.0;
    c.R[0] = c.R[4] = c.R[8] = 1.0;
    return c;
}
// The camera that took the image, turned or mirrored with the image, projects to the point moved with the image. Image
// coordinates are measured from the image's corner.
void projects(Op op, const sensor_msgs::CameraInfo& a, const sensor_msgs::CameraInfo& b, double X, double Y) {
    const double w = a.width, h = a.height, u = a.K[0] * X + a.K[2], v = a.K[4] * Y + a.K[5];
    double nX = X, nY = Y, nu = u, nv = v;
    switch (op) {
        case CW90: nX = -Y; nY = X; nu = h - v; nv = u; break;
        case CW180: case BOTH: nX = -X; nY = -Y; nu = w - u; nv = h - v; break;
        case CW270: nX = Y; nY = -X; nu = v; nv = w - u; break;
        case HORIZ: nX = -X; nu = w - u; break;
        case VERT: nY = -Y; nv = h - v; break;
    }
    const double pu = b.K[0] * nX + b.K[1] * nY + b.K[2], pv = b.K[3] * nX + b.K[4] * nY + b.K[5];
    CHECK(pbt::near(pu, nu, 1e-7 * (1 + std::abs(nu))) && pbt::near(pv, nv, 1e-7 * (1 + std::abs(nv))), names[op], ": the point projects to ", pu, ",", pv, " instead of ", nu, ",", nv);
    CHECK(b.width == (swaps(op) ? a.height : a.width) && b.height == (swaps(op) ? a.width : a.height), names[op], ": size");
    CHECK(b.K[8] == a.K[8] && b.K[1] == 0 && b.K[3] == 0 && b.K[6] == 0 && b.K[7] == 0, names[op], ": rest of the camera matrix");
    CHECK(b.header == a.header && b.distortion_model == a.distortion_model, names[op], ": header");
}
bool near_info(const sensor_msgs::CameraInfo& a, const sensor_msgs::CameraInfo& b) {
    bool ok = a.width == b.width && a.height == b.height && a.header == b.header;
    for (int i = 0; i < 9; ++i) ok = ok && pbt::near(a.K[i], b.K[i], 1e-7 * (1 + std::abs(b.K[i])));
    return ok;
}
}

PROPERTY(operations, 6000, 120000, "image of at least two pixels in each direction") {
    const int w = static_cast<int>(s.size(1, 24)), h = static_cast<int>(s.size(1, 24));
    const auto& enc = s.pick(encodings);
    const cv::Mat m = image(s, w, h, enc.second), copy = m.clone();
    const Op op = static_cast<Op>(s.draw(5));
    const auto o = make(op, s.boolean(), static_cast<int>(s.draw(2)));
    const cv::Mat r = o->apply(m);
    same(r, model(op, copy), names[op]);
    same(m, copy, "input");
    const sensor_msgs::CameraInfo c = calibration(s, w, h), c1 = o->apply(c);
    for (int i = 0; i < 3; ++i) projects(op, c, c1, s.uniform(-2, 2), s.uniform(-2, 2));
    // repeated until the identity
    cv::Mat x = r;
    sensor_msgs::CameraInfo y = c1;
    const int order = swaps(op) ? 4 : 2;
    for (int i = 1; i < order; ++i) { x = o->apply(x); y = o->apply(y); }
    same(x, copy, std::string(names[op]) + " repeated");
    CHECK(near_info(y, c), names[op], " repeated: calibration");
    // two operations in a row
    const Op op2 = static_cast<Op>(s.draw(5));
    const auto o2 = make(op2, false, 0);
    same(o2->apply(r), model(op2, model(op, copy)), std::string(names[op]) + " then " + names[op2]);
    projects(op2, c1, o2->apply(c1), s.uniform(-2, 2), s.uniform(-2, 2));
    s.nontrivial(w > 1 && h > 1);
    s.label(names[op]);
    s.note() << w << "x" << h << " " << enc.first << " " << names[op];
}

PROPERTY(rotation_angles, 3000, 60000, "always") {
    int d = static_cast<int>(s.boolean() ? s.integer(-720, 1080) : 45 * s.integer(-16, 24));
    const int r = ((d % 360) + 360) % 360;
    if (r == 0 || (d < 0 && r % 90 == 0)) return;  // no turn, or a turn the other way: accepted or refused
    if (r % 90 != 0) {
        CHECK_THROWS((void)std::make_shared<camera_tools::Rotate>(d), d, " degrees");
        s.label("not a multiple of 90");
    } else {
        camera_tools::Rotate o(d);
        const cv::Mat m = image(s, 3, 2, CV_8UC1);
        same(o.apply(m), model(r == 90 ? CW90 : r == 180 ? CW180 : CW270, m), std::to_string(d) + " degrees");
    }
    s.nontrivial();
    s.note() << d << " degrees";
}

namespace {
struct Split { cv::Rect region; std::string topic, info, frame, model; double d[5], fx, fy; int cx, cy; std::vector<Op> ops; };
Split split(pbt::Src& s, int i, int w, int h, X& x) {
    Split c;
    c.region.width = static_cast<int>(s.integer(1, w)); c.region.height = static_cast<int>(s.integer(1, h));
    c.region.x = static_cast<int>(s.draw(w - c.region.width)); c.region.y = static_cast<int>(s.draw(h - c.region.height));
    c.topic = (s.boolean() ? "/camera" : "camera") + std::to_string(i) + "/image"; c.info = "/camera" + std::to_string(i) + "/info"; c.frame = "frame" + std::to_string(i);
    c.model = s.pick({std::string("plumb_bob"), std::string("equidistant")});
    for (double& v : c.d) v = s.uniform(-0.5, 0.5);
    c.fx = s.uniform(1, 900); c.fy = s.uniform(1, 900); c.cx = static_cast<int>(s.integer(0, 640)); c.cy = static_cast<int>(s.integer(0, 480));
    x["topic"] = c.topic; x["info_topic"] = c.info; x["frame_id"] = c.frame;
    X r, d, k;
    r["u"] = c.region.x; r["v"] = c.region.y; r["w"] = c.region.width; r["h"] = c.region.height;
    x["region"] = r;
    d["model"] = c.model; d["k1"] = c.d[0]; d["k2"] = c.d[1]; d["t1"] = c.d[2]; d["t2"] = c.d[3]; d["k3"] = c.d[4];
    x["distortion"] = d;
    k["fx"] = c.fx; k["fy"] = c.fy; k["cx"] = c.cx; k["cy"] = c.cy;
    x["intrinsic"] = k;
    if (s.chance(2, 3)) {
        X o;
        bool any = false;
        if (s.boolean()) { const auto f = s.draw(2); o["flip"] = f == 0 ? "horiz" : f == 1 ? "vert" : "both"; c.ops.push_back(f == 0 ? HORIZ : f == 1 ? VERT : BOTH); any = true; }
        const auto a = s.draw(3);
        if (a) { o["rotate_acw"] = static_cast<int>(90 * a); c.ops.push_back(a == 1 ? CW270 : a == 2 ? CW180 : CW90); any = true; }
        const auto b = s.draw(3);
        if (b) { o["rotate_cw"] = static_cast<int>(90 * b); c.ops.push_back(b == 1 ? CW90 : b == 2 ? CW180 : CW270); any = true; }
        if (any) x["operations"] = o;
    }
    return c;
}
std::string absolute(const std::string& t) { return t[0] == '/' ? t : "/node/" + t; }
}

PROPERTY(splitting, 4000, 80000, "two regions") {
    shim::bus().reset();
    const int w = static_cast<int>(s.size(2, 20)), h = static_cast<int>(s.size(2, 20)), n = static_cast<int>(s.integer(1, 3));
    X images;
    std::vector<Split> cfg;
    for (int i = 0; i < n; ++i) { X x; cfg.push_back(split(s, i, w, h, x)); images[i] = x; }
    shim::set_param("/node/images", images);
    camera_tools::ImageSplitter node;
    const int frames = static_cast<int>(s.integer(1, 2));
    for (int f = 0; f < frames; ++f) {
        shim::bus().published.clear();
        const auto& enc = s.pick(encodings);
        const cv::Mat m = image(s, w, h, enc.second);
        const sensor_msgs::Image msg = message(s, m, enc.first);
        CHECK(shim::inject("/node/input/image", msg) == 1, "subscription");
        for (int i = 0; i < n; ++i) {
            const Split& c = cfg[i];
            const auto out = shim::captured<sensor_msgs::Image>(absolute(c.topic));
            const auto info = shim::captured<sensor_msgs::CameraInfo>(c.info);
            CHECK(out.size() == 1 && info.size() == 1, "published ", out.size(), " images and ", info.size(), " calibrations of region ", i);
            cv::Mat e(c.region.height, c.region.width, m.type());
            for (int v = 0; v < e.rows; ++v) std::memcpy(e.ptr<uchar>(v), m.ptr<uchar>(v + c.region.y) + c.region.x * m.elemSize(), e.cols * e.elemSize());
            sensor_msgs::CameraInfo ei;
            ei.header = info[0].header; ei.width = e.cols; ei.height = e.rows; ei.distortion_model = c.model;
            ei.K[0] = c.fx; ei.K[4] = c.fy; ei.K[2] = c.cx; ei.K[5] = c.cy; ei.K[8] = 1.0;
            for (Op op : c.ops) {
                e = model(op, e);
                const double cw = ei.width, ch = ei.height, cx = ei.K[2], cy = ei.K[5];
                if (swaps(op)) { std::swap(ei.width, ei.height); std::swap(ei.K[0], ei.K[4]); }
                switch (op) {
                    case CW90: ei.K[2] = ch - cy; ei.K[5] = cx; break;
                    case CW270: ei.K[2] = cy; ei.K[5] = cw - cx; break;
                    case CW180: case BOTH: ei.K[2] = cw - cx; ei.K[5] = ch - cy; break;
                    case HORIZ: ei.K[2] = cw - cx; break;
                    case VERT: ei.K[5] = ch - cy; break;
                }
            }
            CHECK(out[0].header.stamp == msg.header.stamp && out[0].header.frame_id == c.frame, "image header of region ", i);
            CHECK(info[0].header.stamp == msg.header.stamp && info[0].header.frame_id == c.frame, "calibration header of region ", i);
            CHECK(out[0].encoding == enc.first && static_cast<int>(out[0].width) == e.cols && static_cast<int>(out[0].height) == e.rows, "image of region ", i);
            const cv::Mat got(out[0].height, out[0].width, m.type(), const_cast<uchar*>(out[0].data.data()), out[0].step);
            same(got, e, "region " + std::to_string(i));
            CHECK(near_info(info[0], ei), "calibration of region ", i, ": K ", info[0].K[0], " ", info[0].K[2], " ", info[0].K[4], " ", info[0].K[5]);
            CHECK(info[0].distortion_model == c.model && info[0].D.size() == 5, "distortion model");
            for (int k = 0; k < 5; ++k) CHECK(info[0].D[k] == c.d[k], "distortion ", k);
            if (c.ops.empty()) CHECK(info[0].P[0] == c.fx && info[0].P[5] == c.fy && info[0].P[2] == c.cx && info[0].P[6] == c.cy && info[0].P[10] == 1.0, "projection matrix");
        }
        CHECK(shim::bus().published.size() == static_cast<std::size_t>(2 * n), "messages published");
    }
    s.nontrivial(n > 1);
    s.note() << w << "x" << h << ", " << n << " regions";
}

PROPERTY(split_configuration_refused, 3000, 60000, "always") {
    shim::bus().reset();
    X images, x;
    const int w = 8, h = 6;
    const Split c = split(s, 0, w, h, x);
    std::string what;
    bool at_image = false;
    X ops;
    switch (s.draw(7)) {
        case 0: what = "no list"; break;
        case 1: what = "image that is not a struct"; images[0] = 3; break;
        case 2: what = "region that is not a struct"; x["region"] = X("all"); images[0] = x; break;
        case 3: what = "unknown operation"; ops["turn"] = 90; x["operations"] = ops; images[0] = x; break;
        case 4: what = "unknown flip"; ops["flip"] = "diagonal"; x["operations"] = ops; images[0] = x; break;
        case 5: what = "rotation by 45 degrees"; ops[s.boolean() ? "rotate_cw" : "rotate_acw"] = static_cast<int>(s.pick({45, 1, 135, 89, 200})); x["operations"] = ops; images[0] = x; break;
        case 6: what = "topic that is not a string"; x["topic"] = 1; images[0] = x; break;
        default: {
            what = "region outside the image";
            X r;
            const auto k = s.draw(3);
            r["u"] = k == 0 ? w - 1 : k == 1 ? -1 : 0; r["v"] = k == 2 ? h - 1 : k == 3 ? -2 : 0; r["w"] = 3; r["h"] = 3;
            x["region"] = r;
            images[0] = x;
            at_image = true;
        }
    }
    x["operations"];
    if (images.valid()) shim::set_param("/node/images", images);
    if (!at_image) CHECK_THROWS(camera_tools::ImageSplitter(), what);
    else {
        camera_tools::ImageSplitter node;
        const sensor_msgs::Image msg = message(s, image(s, w, h, CV_8UC1), "mono8");
        CHECK_THROWS(shim::inject("/node/input/image", msg), what);
    }
    s.nontrivial();
    s.label(what);
    s.note() << what;
}

PROPERTY(published_calibration, 4000, 80000, "baseline configured") {
    shim::bus().reset();
    auto set = [&](const std::string& n, double& v, double lo, double hi) {
        v = 0.0;
        if (!s.chance(5, 6)) return;
        if (s.chance(1, 3)) { const int i = static_cast<int>(s.integer(static_cast<int>(lo) + 1, static_cast<int>(hi))); v = i; shim::set_param("/node/" + n, i); }
        else { v = s.uniform(lo, hi); shim::set_param("/node/" + n, v); }
    };
    double kfx, kfy, kcx, kcy, pfx, pfy, pcx, pcy, b = 0.0;
    set("K/fx", kfx, 1, 900); set("K/fy", kfy, 1, 900); set("K/cx", kcx, 1, 600); set("K/cy", kcy, 1, 600);
    set("P/fx", pfx, 1, 900); set("P/fy", pfy, 1, 900); set("P/cx", pcx, 1, 600); set("P/cy", pcy, 1, 600);
    set("P/baseline", b, 0.0, 1.0);
    std::string model;
    std::vector<double> D;
    if (s.boolean()) { model = "plumb_bob"; shim::set_param("/node/distortion_model", model); }
    if (s.boolean()) { X v; v.setSize(0); const int n = static_cast<int>(s.integer(0, 5)); for (int i = 0; i < n; ++i) { D.push_back(s.uniform(-1, 1)); v[i] = D.back(); } shim::set_param("/node/distortion_coefficients", v); }
    camera_tools::PublishInfo node;
    const int n = static_cast<int>(s.integer(1, 3));
    for (int i = 0; i < n; ++i) {
        const sensor_msgs::Image msg = message(s, image(s, static_cast<int>(s.integer(1, 9)), static_cast<int>(s.integer(1, 9)), CV_8UC1), "mono8");
        shim::inject("/node/input/image", msg);
        const auto out = shim::captured<sensor_msgs::CameraInfo>("/node/output/camera_info");
        CHECK(static_cast<int>(out.size()) == i + 1, "one calibration per image");
        sensor_msgs::CameraInfo e;
        e.header = msg.header; e.width = msg.width; e.height = msg.height; e.distortion_model = model; e.D = D;
        e.K = {kfx, 0, kcx, 0, kfy, kcy, 0, 0, 1};
        e.R = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        e.P = {pfx, 0, pcx, -pfx * b, 0, pfy, pcy, 0, 0, 0, 1, 0};
        CHECK(out.back() == e, "calibration: P[3] ", out.back().P[3], " expected ", e.P[3]);
    }
    s.nontrivial(b != 0.0);
    s.note() << n << " images, baseline " << b;
}

PROPERTY(changed_frame_ids, 4000, 80000, "a complete pair") {
    shim::bus().reset();
    std::string frame = "CHANGED_FRAME_ID_DEFAULT";
    if (s.boolean()) { frame = s.pick({std::string("left"), std::string("")}); shim::set_param("/node/frame_id", frame); }
    camera_tools::ChangeFrameId node;
    std::size_t pairs = 0;
    uint32_t sec = 1;
    const int n = static_cast<int>(s.integer(1, 4));
    for (int i = 0; i < n; ++i) {
        sec += 1 + static_cast<uint32_t>(s.draw(3));
        const auto& enc = s.pick(encodings);
        sensor_msgs::Image m = message(s, image(s, static_cast<int>(s.integer(1, 5)), static_cast<int>(s.integer(1, 5)), enc.second), enc.first);
        sensor_msgs::CameraInfo c = calibration(s, 5, 5);
        m.header.stamp.sec = c.header.stamp.sec = sec;
        c.header.stamp.nsec = m.header.stamp.nsec;
        c.header.frame_id = "old";
        const int which = static_cast<int>(s.draw(3));  // both orders, or one of the two only
        if (which == 0 || which == 2) shim::inject("/node/input/image", m);
        if (which != 2) shim::inject("/node/input/camera_info", c);
        if (which == 1) shim::inject("/node/input/image", m);
        const bool pair = which == 0 || which == 1;
        pairs += pair;
        const auto im = shim::captured<sensor_msgs::Image>("/node/output/image");
        const auto in = shim::captured<sensor_msgs::CameraInfo>("/node/output/camera_info");
        CHECK(im.size() == pairs && in.size() == pairs, "published ", im.size(), " images and ", in.size(), " calibrations of ", pairs, " pairs");
        if (pair) {
            m.header.frame_id = frame;
            c.header.frame_id = frame;
            CHECK(im.back() == m, "image changed in more than its frame");
            CHECK(in.back() == c, "calibration changed in more than its frame");
        }
    }
    s.nontrivial(pairs > 0);
    s.note() << pairs << " pairs of " << n;
}
