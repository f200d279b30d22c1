// P06: body frames against a model tree.
#include <eigen_ros/body_frames_tf.hpp>
#include <eigen_ros/eigen_ros.hpp>

#include "gen.hpp"

namespace {
typedef XmlRpc::XmlRpcValue X;
struct Frame {
    std::string name, id, parent;
    bool dynamic{false}, lookup{false};
    std::vector<std::string> aliases;
    Eigen::Matrix4d T;  // body to frame
};
struct Model {
    std::string body, body_id;
    std::vector<Frame> frames;  // without the body
    X config;
    std::map<std::string, Eigen::Matrix4d> tf;  // frame id -> pose in the body, for the TF stand-in
    const Frame* find(const std::string& n) const { for (const auto& f : frames) if (f.name == n) return &f; return nullptr; }
};
Eigen::Matrix4d moved(const Eigen::Matrix4d& T, const ros::Time& t) {
    Eigen::Matrix4d D = Eigen::Matrix4d::Identity();
    D.block<3, 3>(0, 0) = gen::rodrigues(Eigen::Vector3d(0, 0, 0.1 * static_cast<double>(t.sec % 60)));
    D(0, 3) = static_cast<double>(t.sec % 60);
    return T * D;
}
X rotation_node(pbt::Src& s, Eigen::Matrix3d& R) {
    Eigen::Quaterniond q(gen::rotation(s));
    if (s.boolean()) q.coeffs() = -q.coeffs();
    const double k = s.chance(1, 3) ? s.uniform(0.2, 5.0) : 1.0;  // need not be normalised
    R = q.normalized().toRotationMatrix();
    X n;
    n["w"] = k * q.w(); n["x"] = k * q.x(); n["y"] = k * q.y(); n["z"] = k * q.z();
    return n;
}
void add(pbt::Src& s, Model& m, X& into, const std::string& parent, const Eigen::Matrix4d& Tp, int depth, int& counter) {
    const int n = static_cast<int>(s.integer(depth == 0 ? 0 : 0, depth == 0 ? 4 : 2));
    for (int i = 0; i < n && counter < 9; ++i) {
        Frame f;
        f.name = "frame" + std::to_string(counter++);
        f.parent = parent;
        X node;
        node["unused"] = 1;  // a struct even when empty
        if (s.boolean()) { f.id = s.boolean() ? f.name + "_id" : "robot/" + f.name; node["frame_id"] = f.id; } else f.id = f.name;
        Eigen::Matrix4d L = Eigen::Matrix4d::Identity();
        f.dynamic = s.chance(1, 6);
        if (f.dynamic) {
            node["dynamic"] = true;
            L = gen::isometry(s).matrix();
            s.label("dynamic frame");
        } else {
            if (s.chance(1, 4)) node["dynamic"] = false;
            f.lookup = s.chance(1, 5);
            if (f.lookup) {
                node["lookup_tf"] = true;
                L = gen::isometry(s).matrix();
                s.label("looked-up frame");
            } else {
                if (s.chance(1, 4)) node["lookup_tf"] = false;
                if (s.chance(3, 4)) {
                    X t;
                    t["comment"] = "";
                    for (int k = 0; k < 3; ++k) if (s.chance(3, 4)) { const double v = s.real(-5, 5); t[std::string(1, "xyz"[k])] = v; L(k, 3) = v; }
                    node["translation"] = t;
                }
                if (s.chance(3, 4)) { Eigen::Matrix3d R; node["rotation"] = rotation_node(s, R); L.block<3, 3>(0, 0) = R; }
            }
            const int na = static_cast<int>(s.draw(2));
            if (na || s.chance(1, 5)) {
                X a;
                a.setSize(0);
                for (int k = 0; k < na; ++k) { f.aliases.push_back(f.name + "_alias" + std::to_string(k)); a[k] = f.aliases.back(); }
                node["aliases"] = a;
            }
        }
        f.T = Tp * L;
        m.tf[f.id] = f.T;
        m.frames.push_back(f);
        if (!f.dynamic && depth < 2 && s.boolean()) {
            X sub;
            sub["zzz"] = 1;
            X frames;
            const std::size_t before = m.frames.size();
            add(s, m, frames, f.name, f.T, depth + 1, counter);
            if (m.frames.size() > before) { node["frames"] = frames; s.label("nested frames"); }
        }
        into[f.name] = node;
    }
}
Model model(pbt::Src& s) {
    Model m;
    m.body = s.pick({std::string("base_link"), std::string("body")});
    X body, frames;
    body["comment"] = 1;
    m.body_id = m.body;
    if (s.boolean()) { m.body_id = "robot_base"; body["frame_id"] = m.body_id; }
    m.tf[m.body_id] = Eigen::Matrix4d::Identity();
    int counter = 0;
    add(s, m, frames, m.body, Eigen::Matrix4d::Identity(), 0, counter);
    if (!m.frames.empty()) body["frames"] = frames;
    m.config[m.body] = body;
    return m;
}
void start(const Model& m) {
    shim::bus().reset();
    shim::set_param("/node/body_frames", m.config);
    shim::bus().lookup = [m](const std::string& target, const std::string& source, const ros::Time& t) -> std::any {
        auto pose = [&](const std::string& id) {
            const auto it = m.tf.find(id);
            if (it == m.tf.end()) throw std::runtime_error("no such frame " + id);
            Eigen::Matrix4d T = it->second;
            for (const auto& f : m.frames) if (f.id == id && f.dynamic) T = moved(T, t);
            return T;
        };
        const Eigen::Matrix4d T = gen::inverse4(pose(target)) * pose(source);
        geometry_msgs::TransformStamped o;
        o.header.stamp = t;
        o.header.frame_id = target;
        o.child_frame_id = source;
        const Eigen::Matrix3d R = T.block<3, 3>(0, 0);
        const Eigen::Quaterniond q(R);
        o.transform.translation.x = T(0, 3); o.transform.translation.y = T(1, 3); o.transform.translation.z = T(2, 3);
        o.transform.rotation.w = q.w(); o.transform.rotation.x = q.x(); o.transform.rotation.y = q.y(); o.transform.rotation.z = q.z();
        return std::any(o);
    };
}
Eigen::Matrix4d at(const Model& m, const std::string& n, const ros::Time& t) {
    if (n == m.body) return Eigen::Matrix4d::Identity();
    const Frame* f = m.find(n);
    return f->dynamic ? moved(f->T, t) : f->T;
}
void same(const Eigen::Isometry3d& a, const Eigen::Matrix4d& b, const std::string& what) {
    CHECK(gen::max_diff(a.matrix(), b) < 1e-8 * gen::scale_of(b), what, ": ", gen::str(a.matrix()), " expected ", gen::str(b));
}
}

PROPERTY(queries, 6000, 120000, "two frames beside the body") {
    const Model m = model(s);
    start(m);
    const eigen_ros::BodyFrames b("~");
    CHECK(b.body_frame() == m.body && b.body_frame_id() == m.body_id, "body frame");
    CHECK(b.frame(m.body_id) == m.body && b.frame_id(m.body) == m.body_id && b.aliases(m.body_id).empty() && !b.is_dynamic(m.body) && !b.lookedup_tf(m.body), "body frame");
    std::vector<std::string> names = b.frames(), expect{m.body};
    for (const auto& f : m.frames) expect.push_back(f.name);
    std::sort(names.begin(), names.end());
    std::sort(expect.begin(), expect.end());
    CHECK(names == expect, "list of frames");
    const ros::Time t(static_cast<uint32_t>(s.integer(0, 100)), 0);
    same(b.body_to_frame(m.body, t), Eigen::Matrix4d::Identity(), "body");
    same(b.frame_to_body(m.body, t), Eigen::Matrix4d::Identity(), "body");
    for (const auto& f : m.frames) {
        CHECK(b.has_frame(f.name) && b.frame_id(f.name) == f.id && b.frame(f.id) == f.name, "names of ", f.name);
        CHECK(b.is_dynamic(f.name) == f.dynamic && b.lookedup_tf(f.name) == f.lookup, "kind of ", f.name);
        CHECK(b.aliases(f.id) == f.aliases, "aliases of ", f.name);
        for (const auto& a : f.aliases) CHECK(b.frame(a) == f.name, "alias ", a);
        const Eigen::Matrix4d T = at(m, f.name, t);
        same(b.body_to_frame(f.name, t), T, "body to " + f.name);
        same(b.frame_to_body(f.name, t), gen::inverse4(T), f.name + " to body");
        same(b.body_to_frame(f.name), at(m, f.name, ros::Time(0)), "body to " + f.name + " without a time");
        same(b.body_to_frame(f.name, t) * b.frame_to_body(f.name, t), Eigen::Matrix4d::Identity(), "there and back");
    }
    for (const auto& f : expect) {
        const std::string g = expect[s.draw(expect.size() - 1)];
        same(b.frame_to_frame(f, g, t), gen::inverse4(at(m, f, t)) * at(m, g, t), f + " to " + g);
    }
    const std::string unknown = s.pick({std::string("nothing"), std::string(""), std::string("frame"), std::string("frame0_alias0")});
    CHECK(!b.has_frame(unknown), "unknown frame");
    CHECK_THROWS(b.body_to_frame(unknown), "unknown frame");
    CHECK_THROWS(b.frame_to_body(unknown), "unknown frame");
    CHECK_THROWS(b.frame_to_frame(m.body, unknown), "unknown frame");
    CHECK_THROWS(b.frame_to_frame(unknown, m.body), "unknown frame");
    CHECK_THROWS(b.frame_id(unknown), "unknown frame");
    CHECK_THROWS(b.frame("nothing at all"), "unknown frame id");
    CHECK_THROWS(b.aliases("nothing at all"), "unknown frame id");
    s.nontrivial(m.frames.size() >= 2);
    for (const auto& f : m.frames) s.note() << f.parent << ">" << f.name << (f.dynamic ? "(dynamic) " : f.lookup ? "(tf) " : " ");
}

PROPERTY(broadcast_and_service, 5000, 100000, "two frames beside the body") {
    const Model m = model(s);
    start(m);
    eigen_ros::BodyFramesTf tf("~");
    CHECK(shim::bus().tf.empty(), "non-static transforms");
    std::map<std::string, std::pair<std::string, Eigen::Matrix4d>> expect;
    for (const auto& f : m.frames) {
        if (!f.lookup && !f.dynamic) expect[f.id] = {m.body_id, f.T};
        for (const auto& a : f.aliases) expect[a] = {f.id, Eigen::Matrix4d::Identity()};
    }
    for (const auto& x : shim::bus().static_tf) {
        const auto& o = std::any_cast<const geometry_msgs::TransformStamped&>(x);
        const auto it = expect.find(o.child_frame_id);
        CHECK(it != expect.end(), "unexpected or repeated transform of ", o.child_frame_id);
        CHECK(o.header.frame_id == it->second.first, "parent of ", o.child_frame_id, " is ", o.header.frame_id);
        const auto& t = o.transform;
        same(gen::make_iso(Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z).toRotationMatrix(), Eigen::Vector3d(t.translation.x, t.translation.y, t.translation.z)), it->second.second, "broadcast of " + o.child_frame_id);
        expect.erase(it);
    }
    CHECK(expect.empty(), "no transform of ", expect.begin()->first);
    std::vector<std::string> names{m.body};
    for (const auto& f : m.frames) names.push_back(f.name);
    for (int i = 0; i < 4; ++i) {
        eigen_ros::lookup_transform::Request q;
        eigen_ros::lookup_transform::Response r;
        q.source_frame = names[s.draw(names.size() - 1)];
        q.target_frame = names[s.draw(names.size() - 1)];
        CHECK(shim::call("/node/lookup_transform", q, r), "service failed");
        const auto& t = r.transform;
        same(gen::make_iso(Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z).toRotationMatrix(), Eigen::Vector3d(t.translation.x, t.translation.y, t.translation.z)),
                gen::inverse4(at(m, q.source_frame, ros::Time(0))) * at(m, q.target_frame, ros::Time(0)), "service " + q.source_frame + " to " + q.target_frame);
    }
    s.nontrivial(m.frames.size() >= 2);
    for (const auto& f : m.frames) s.note() << f.name << (f.dynamic ? "(dynamic) " : f.lookup ? "(tf) " : " ");
}

namespace {
X translation(double x) { X t; t["x"] = x; return t; }
X node(double x) { X n; n["translation"] = translation(x); return n; }
X full_rotation() { X r; r["w"] = 1.0; r["x"] = 0.0; r["y"] = 0.0; r["z"] = 0.0; return r; }
}

PROPERTY(malformed, 6000, 100000, "always") {
    Model m = model(s);
    X body = static_cast<const X&>(m.config)[m.body];
    X frames;
    if (body.hasMember("frames")) frames = body["frames"];
    std::string what;
    X extra = node(1.0);
    bool put = true;
    switch (s.draw(15)) {
        case 0: what = "frame that is not a struct"; extra = s.boolean() ? X(1.0) : X("imu"); break;
        case 1: { what = "frame of the same name in a nested level"; X sub; sub["bad"] = node(2.0); extra["frames"] = sub; break; }
        case 2: what = "frame id of the body"; extra["frame_id"] = m.body_id; break;
        case 3: what = "frame with the name of the body"; frames[m.body] = extra; put = false; break;
        case 4: { what = "alias of another frame"; X o = node(0.5); o["frame_id"] = "taken"; frames["first"] = o; X a; a[0] = "fine"; a[1] = "taken"; extra["aliases"] = a; break; }
        case 5: { what = "the same alias twice"; X a; a[0] = "twice"; a[1] = "twice"; extra["aliases"] = a; break; }
        case 6: { what = "alias that is not a string"; X a; a[0] = 3; extra["aliases"] = a; break; }
        case 7: what = "aliases that are not a list"; extra["aliases"] = X("alias"); break;
        case 8: {
            what = "dynamic frame with " + std::string();
            X d;
            d["dynamic"] = true;
            switch (s.draw(4)) {
                case 0: { X a; a[0] = "alias"; d["aliases"] = a; break; }
                case 1: d["lookup_tf"] = s.boolean(); break;
                case 2: d["translation"] = translation(1.0); break;
                case 3: d["rotation"] = full_rotation(); break;
                default: { X sub; sub["child"] = node(1.0); d["frames"] = sub; }
            }
            extra = d;
            break;
        }
        case 9: {
            what = "rotation without all components";
            X r = full_rotation(), q;
            const std::string skip = s.pick({std::string("w"), std::string("x"), std::string("y"), std::string("z")});
            for (const std::string k : {"w", "x", "y", "z"}) if (k != skip) q[k] = static_cast<double&>(r[k]);
            extra["rotation"] = q;
            break;
        }
        case 10: { what = "translation that is not a number"; X t; t[s.pick({std::string("x"), std::string("y"), std::string("z")})] = "1.0"; extra["translation"] = t; break; }
        case 11: { what = "rotation that is not a number"; X r = full_rotation(); r[s.pick({std::string("w"), std::string("x"), std::string("y"), std::string("z")})] = "0"; extra["rotation"] = r; break; }
        case 12: what = "looked-up frame that TF does not know"; extra = X(); extra["lookup_tf"] = true; break;
        case 13: what = "two bodies"; m.config["second_body"] = body; put = false; break;
        case 14: what = "body that is not a struct"; m.config = X(); m.config["base_link"] = s.boolean() ? X(1.0) : X("x"); put = false; frames = X(); break;
        default: what = "no struct of frames"; m.config = s.boolean() ? X() : X("frames"); put = false; frames = X(); break;
    }
    if (put) frames["bad"] = extra;
    if (frames.valid() && m.config.getType() == X::TypeStruct && what != "two bodies") { body["frames"] = frames; m.config[m.body] = body; }
    start(m);
    CHECK_THROWS(eigen_ros::BodyFrames("~"), what);
    if (put) {  // the same configuration without the error is fine
        X good = node(1.0);
        body["frames"]["bad"] = good;
        m.config[m.body] = body;
        start(m);
        eigen_ros::BodyFrames b("~");
        CHECK(b.has_frame("bad"), "good frame");
    }
    s.nontrivial();
    s.label(what);
    s.note() << what;
}
