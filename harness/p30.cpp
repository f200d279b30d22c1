// P30: the registration node on static scenes with known motion, and the configuration of registration methods.
#include <pcl_conversions/pcl_conversions.h>
#include <pcl_ros/point_cloud.h>
#include <serpent/front_end/lidar/registration.hpp>
#include <serpent/front_end/lidar/registration_methods.hpp>

#include <deque>

#include "mutex_use.hpp"
#include "gen.hpp"

namespace {
typedef XmlRpc::XmlRpcValue X;
const std::string ns = "/serpent/";
const std::string OUT = "/serpent/registration/transform";
ros::Time stamp(uint64_t us) { ros::Time t; t.fromNSec(us * 1000ULL); return t; }

template<typename PointT> void put_unit(PointT&, const Eigen::Vector3d&) {}
void put_unit(PointNormalUnit& q, const Eigen::Vector3d& u) { q.ux = static_cast<float>(u[0]); q.uy = static_cast<float>(u[1]); q.uz = static_cast<float>(u[2]); }

struct Scene { std::vector<Eigen::Vector3d> p, n; };
Scene scene(pbt::Src& s, int count) {
    Scene w;
    for (int tries = 0; static_cast<int>(w.p.size()) < count && tries < 400; ++tries) {
        const Eigen::Vector3d x(s.uniform(-8, 8), s.uniform(-8, 8), s.uniform(-8, 8));
        bool far = true;
        for (const auto& y : w.p) far = far && (x - y).norm() > 1.5;
        if (!far) continue;
        Eigen::Vector3d n(s.normal(), s.normal(), s.normal());
        if (n.norm() < 1e-3) n = Eigen::Vector3d::UnitX();
        w.p.push_back(x); w.n.push_back(n.normalized());
    }
    return w;
}
// the scene as seen from a sensor at pose T; some of the points are missing when asked
template<typename PointT>
typename pcl::PointCloud<PointT>::Ptr view(pbt::Src& s, const Scene& w, const Eigen::Matrix4d& T, bool partial) {
    auto c = std::make_shared<pcl::PointCloud<PointT>>();
    const Eigen::Matrix4d I = gen::inverse4(T);
    std::size_t skipped = 0;
    for (std::size_t i = 0; i < w.p.size(); ++i) {
        if (partial && skipped + 1 < w.p.size() / 6 && s.chance(1, 8)) { ++skipped; continue; }
        const Eigen::Vector3d p = I.block<3, 3>(0, 0) * w.p[i] + I.block<3, 1>(0, 3), n = I.block<3, 3>(0, 0) * w.n[i];
        PointT q;
        q.x = static_cast<float>(p[0]); q.y = static_cast<float>(p[1]); q.z = static_cast<float>(p[2]);
        q.normal_x = static_cast<float>(n[0]); q.normal_y = static_cast<float>(n[1]); q.normal_z = static_cast<float>(n[2]);
        q.curvature = static_cast<float>(i);
        put_unit(q, p.norm() > 1e-6 ? Eigen::Vector3d(p.normalized()) : Eigen::Vector3d::UnitX());
        c->push_back(q);
    }
    return c;
}

struct Settings {
    std::string method;
    int iterations{10};
    double distance{std::numeric_limits<double>::max()};
    bool reciprocal{false};
};
Settings settings(pbt::Src& s, const std::string& prefix, bool partial) {
    Settings c;
    c.method = s.pick({std::string("icp"), std::string("fast_gicp"), std::string("fast_gicp_st"), std::string("fast_vgicp"), std::string("gicp")});
    if (c.method != "fast_gicp" || s.boolean()) shim::set_param(ns + prefix + "method", c.method);
    if (s.boolean()) { c.iterations = static_cast<int>(s.integer(5, 20)); shim::set_param(ns + prefix + "base/maximum_iterations", c.iterations); }
    if (partial || s.boolean()) { c.distance = s.uniform(0.7, 0.9); shim::set_param(ns + prefix + "base/max_correspondence_distance", c.distance); }
    if (s.chance(1, 4)) { c.reciprocal = true; shim::set_param(ns + prefix + "icp/use_reciprocal_correspondences", true); }
    if (c.method == "gicp") shim::set_param(ns + prefix + "gicp/correspondence_randomness", static_cast<int>(s.integer(5, 10)));
    return c;
}

enum Cov { CONSTANT, LLS_CONSTANT, LLS_VOXEL, CENSI_CONSTANT, CENSI_VOXEL, CENSI_RANGE, CENSI_BIAS };
struct CovSettings { Cov kind; int model; double rot{0.0174533}, trans{1e-2}, point{0.05}, leaf{0.1}, range{0.05}, bias{0.02}; };
template<bool UNIT>
CovSettings covariance_settings(pbt::Src& s) {
    CovSettings c;
    const std::string p = ns + "registration_covariance/";
    c.kind = static_cast<Cov>(s.draw(UNIT ? CENSI_BIAS : CENSI_VOXEL));
    const std::string method = c.kind == CONSTANT ? "CONSTANT" : c.kind <= LLS_VOXEL ? "LLS" : "CENSI";
    if (method != "CENSI" || s.boolean()) shim::set_param(p + "method", method);
    c.model = static_cast<int>(s.draw(3));
    const char* models[] = {"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"};
    if (c.model != 2 || s.boolean()) shim::set_param(p + "model", std::string(models[c.model]));
    const std::string point = c.kind == LLS_CONSTANT || c.kind == CENSI_CONSTANT ? "CONSTANT" : c.kind == LLS_VOXEL || c.kind == CENSI_VOXEL ? "VOXEL_SIZE" : c.kind == CENSI_BIAS ? "RANGE_BIAS" : "RANGE";
    if (point != "RANGE" || s.boolean()) shim::set_param(p + "point_covariance/method", point);
    auto set = [&](const std::string& name, double& v) { if (s.boolean()) { v = s.uniform(0.01, 0.3); shim::set_param(name, v); } };
    set(p + "constant/rotation", c.rot);
    set(p + "constant/translation", c.trans);
    set(p + "point_covariance/constant", c.point);
    set(ns + "voxel_grid_filter/leaf_size", c.leaf);
    set(p + "point_covariance/range_noise", c.range);
    set(p + "point_covariance/range_bias_noise", c.bias);
    if (point != "VOXEL_SIZE" && s.boolean()) shim::set_param(ns + "voxel_grid_filter/enabled", s.boolean());
    s.label("covariance " + method + " " + (c.kind == CONSTANT ? "" : point));
    return c;
}
template<typename Model, bool UNIT>
gen::Matrix6d model_covariance(pcl::Registration<typename Model::PointSource, typename Model::PointTarget>& r, const CovSettings& c) {
    int n;
    switch (c.kind) {
        case LLS_CONSTANT: return serpent::lls_iid_covariance<Model, float>(r, c.point * c.point, n);
        case LLS_VOXEL: return serpent::lls_iid_covariance<Model, float>(r, c.leaf * c.leaf, n);
        case CENSI_CONSTANT: return serpent::censi_iid_covariance<Model, float>(r, c.point * c.point, n);
        case CENSI_VOXEL: return serpent::censi_iid_covariance<Model, float>(r, c.leaf * c.leaf, n);
        default:
            if constexpr (UNIT) {
                if (c.kind == CENSI_RANGE) return serpent::censi_range_covariance<Model, float>(r, c.range * c.range, n);
                return serpent::censi_range_bias_covariance<Model, float>(r, c.range * c.range, c.bias * c.bias, n);
            }
            throw pbt::Fail("harness: no such covariance");
    }
}

template<typename PointT, bool UNIT>
void motion(pbt::Src& s) {
    typedef pcl::PointCloud<PointT> Cloud;
    shim::bus().reset();
    // calibration
    const bool calibrated = s.draw(3) != 0;
    const Eigen::Isometry3d BL = calibrated ? gen::isometry(s, 2.0) : Eigen::Isometry3d::Identity();
    const std::string body = s.pick({std::string("base_link"), std::string("imu")}), body_id = s.boolean() ? body : "robot/" + body;
    const std::string lidar_id = s.boolean() ? "lidar" : "os_sensor";
    {
        X lidar, frames, b, root, t, r;
        lidar["frame_id"] = lidar_id;
        if (calibrated) {
            t["x"] = BL.translation().x(); t["y"] = BL.translation().y(); t["z"] = BL.translation().z();
            const Eigen::Quaterniond q(BL.rotation());
            r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z();
            lidar["translation"] = t; lidar["rotation"] = r;
        }
        frames["lidar"] = lidar; b["frames"] = frames; b["frame_id"] = body_id; root[body] = b;
        shim::set_param(ns + "body_frames", root);
    }
    const bool partial = s.boolean(), s2m = s.boolean();
    if (!s2m || s.boolean()) shim::set_param(ns + "s2m/enabled", s2m);
    const Settings A = settings(s, "s2s/", partial);
    Settings B = A;
    if (s2m) B = settings(s, "s2m/", partial);
    const Settings& last = s2m ? B : A;
    const CovSettings C = covariance_settings<UNIT>(s);
    const bool debug = s.chance(1, 4), alt = debug && s.boolean();
    if (debug) shim::set_param(ns + "debug/registration/publish_clouds", true);
    if (alt) shim::set_param(ns + "debug/registration/publish_clouds_alt", true);
    if (s.chance(1, 4)) shim::set_param(ns + "debug/registration/check_normals", false);
    s.label(s2m ? "scan to map" : "scan to scan");
    s.label(last.method);

    serpent::Registration<PointT> node;

    const Scene w = scene(s, static_cast<int>(s.integer(24, 40)));
    if (w.p.size() < 22) { s.label("scene too small"); return; }
    const int n = static_cast<int>(s.integer(2, 4));
    std::vector<Eigen::Matrix4d> L;                  // lidar poses
    std::vector<typename Cloud::Ptr> clouds;
    std::vector<Eigen::Matrix4d> guess;              // of L[i-1]^-1 L[i]
    uint64_t now = 1600000000000000ULL + s.draw(1000000000ULL);
    auto small = [&] {
        Eigen::Vector3d r = gen::vec3(s, 1.0), t = gen::vec3(s, 1.0);
        if (r.norm() > 0) r = Eigen::Vector3d(r.normalized() * s.uniform(0, 0.012));
        if (t.norm() > 0) t = Eigen::Vector3d(t.normalized() * s.uniform(0, 0.1));
        return Eigen::Matrix4d(gen::make_iso(gen::rodrigues(r), t).matrix());
    };
    for (int i = 0; i < n; ++i) {
        L.push_back(i == 0 ? Eigen::Matrix4d(gen::make_iso(gen::rotation(s, false), gen::vec3(s, 2.0)).matrix()) : Eigen::Matrix4d(L.back() * gen::make_iso(gen::rotation(s), gen::vec3(s, 1.0)).matrix()));
        clouds.push_back(view<PointT>(s, w, L.back(), partial));
        now += s.integer(1, 200000);
        clouds.back()->header.stamp = now;
        clouds.back()->header.frame_id = lidar_id;
        guess.push_back(i == 0 ? Eigen::Matrix4d::Identity() : Eigen::Matrix4d(gen::inverse4(L[i - 1]) * L[i] * small()));
    }
    // local maps: the scene seen from the previous pose, slightly moved, so that aligning to the map and to the previous
    // scan differ
    std::vector<typename Cloud::Ptr> maps(1);
    std::vector<Eigen::Matrix4d> offset(1, Eigen::Matrix4d::Identity());
    for (int i = 1; i < n; ++i) {
        offset.push_back(s.chance(1, 4) ? Eigen::Matrix4d::Identity() : small());
        maps.push_back(view<PointT>(s, w, L[i - 1] * gen::inverse4(offset.back()), partial));
        maps.back()->header.stamp = clouds[i - 1]->header.stamp;
        maps.back()->header.frame_id = lidar_id;
    }

    const double exact = 1e-4, loose = 0.02;
    auto tolerance = [&](const Settings& c) { return c.method == "gicp" ? loose : exact; };
    auto clouds_near = [&](const Cloud& got, const Cloud& in, const Eigen::Matrix4d& T, double tol, bool normals, const char* what) {
        CHECK(got.size() == in.size(), what, " has ", got.size(), " points of ", in.size());
        for (std::size_t k = 0; k < in.size(); ++k) {
            const Eigen::Vector3d p = T.block<3, 3>(0, 0) * in[k].getVector3fMap().template cast<double>() + T.block<3, 1>(0, 3);
            CHECK((got[k].getVector3fMap().template cast<double>() - p).norm() <= tol * 30, what, ": point ", k, " at ", got[k].x, " ", got[k].y, " ", got[k].z, " expected ", p.transpose());
            if (normals) CHECK((got[k].getNormalVector3fMap().template cast<double>() - T.block<3, 3>(0, 0) * in[k].getNormalVector3fMap().template cast<double>()).norm() <= tol * 10, what, ": normal ", k);
        }
        CHECK(got.header.frame_id == lidar_id, what, " in frame ", got.header.frame_id);
    };

    // scan to scan and its reference registration
    pcl::IterativeClosestPoint<PointT, PointT> refA, refB;
    auto prepare = [&](auto& r, const Settings& c) {
        r.setMaximumIterations(c.iterations); r.setRANSACIterations(0); r.setMaxCorrespondenceDistance(c.distance); r.setTransformationEpsilon(0);
        r.setTransformationRotationEpsilon(0); r.setEuclideanFitnessEpsilon(0); r.setUseReciprocalCorrespondences(c.reciprocal);
    };
    prepare(refA, A); prepare(refB, B);
    std::map<int, Eigen::Matrix4f> s2s_result;
    auto relative = [&](int i) { return Eigen::Matrix4d(gen::inverse4(L[i - 1]) * L[i]); };

    int fed = 0;
    auto feed = [&] {
        const int i = fed++;
        geometry_msgs::TransformStamped g;
        g.header.stamp = stamp(clouds[i]->header.stamp);
        g.header.frame_id = lidar_id;
        g.transform.translation.x = guess[i](0, 3); g.transform.translation.y = guess[i](1, 3); g.transform.translation.z = guess[i](2, 3);
        Eigen::Quaterniond q(Eigen::Matrix3d(guess[i].block<3, 3>(0, 0)));
        if (s.boolean()) q.coeffs() = -q.coeffs();
        g.transform.rotation.w = q.w(); g.transform.rotation.x = q.x(); g.transform.rotation.y = q.y(); g.transform.rotation.z = q.z();
        const auto before = shim::count(OUT);
        if (s.boolean()) { CHECK(shim::inject(ns + "normal_estimation/pointcloud", *clouds[i]) == 1, "clouds not subscribed"); CHECK(shim::inject(ns + "optimisation/imu_transform", g) == 1, "guesses not subscribed"); }
        else { shim::inject(ns + "optimisation/imu_transform", g); shim::inject(ns + "normal_estimation/pointcloud", *clouds[i]); }
        CHECK(shim::count(OUT) == before + (!s2m && i > 0 ? 1 : 0), "transforms published after cloud ", i, ": ", shim::count(OUT) - before);
    };
    auto judge = [&](int i, const Eigen::Matrix4d& TL, pcl::Registration<PointT, PointT>* ref) {
        const auto got = shim::captured<geometry_msgs::PoseWithCovarianceStamped>(OUT);
        CHECK(!got.empty(), "no transform");
        const auto& m = got.back();
        const double tol = tolerance(last);
        CHECK(m.header.stamp == stamp(clouds[i]->header.stamp), "stamp ", m.header.stamp, " expected ", stamp(clouds[i]->header.stamp));
        CHECK(m.header.frame_id == body_id, "frame ", m.header.frame_id);
        const Eigen::Matrix4d TB = BL.matrix() * TL * gen::inverse4(BL.matrix());
        const Eigen::Vector3d p(m.pose.pose.position.x, m.pose.pose.position.y, m.pose.pose.position.z);
        const auto& o = m.pose.pose.orientation;
        CHECK(pbt::near(Eigen::Quaterniond(o.w, o.x, o.y, o.z).norm(), 1.0, 1e-4), "quaternion not normalised");
        const Eigen::Matrix3d R = Eigen::Quaterniond(o.w, o.x, o.y, o.z).normalized().toRotationMatrix();
        CHECK((p - TB.block<3, 1>(0, 3)).norm() <= 10 * tol, "relative position ", p.transpose(), " expected ", TB.block<3, 1>(0, 3).transpose());
        CHECK(gen::angle_between(TB.block<3, 3>(0, 0), R) <= tol, "relative rotation off by ", gen::angle_between(TB.block<3, 3>(0, 0), R));
        // covariance
        gen::Matrix6d S = gen::Matrix6d::Zero();
        if (C.kind == CONSTANT) { for (int k = 0; k < 3; ++k) { S(k, k) = C.rot * C.rot; S(k + 3, k + 3) = C.trans * C.trans; } }
        else {
            if (!ref) return;
            switch (C.model) {
                case 0: S = model_covariance<serpent::PointToPointIcpLinearisedModel<PointT, PointT>, UNIT>(*ref, C); break;
                case 1: S = model_covariance<serpent::PointToPointIcpNonlinearModel<PointT, PointT>, UNIT>(*ref, C); break;
                case 2: S = model_covariance<serpent::PointToPlaneIcpLinearisedModel<PointT, PointT>, UNIT>(*ref, C); break;
                default: S = model_covariance<serpent::PointToPlaneIcpNonlinearModel<PointT, PointT>, UNIT>(*ref, C); break;
            }
        }
        if (!S.allFinite() || S.cwiseAbs().maxCoeff() > 1e3) { s.label("ill-conditioned covariance, not compared"); return; }
        const gen::Matrix6d Ad = gen::adjoint(BL.matrix());
        const gen::Matrix6d SB = Ad * S * Ad.transpose();
        gen::Matrix6d want, have;
        want << SB.block<3, 3>(3, 3), SB.block<3, 3>(3, 0), SB.block<3, 3>(0, 3), SB.block<3, 3>(0, 0);
        for (int k = 0; k < 36; ++k) have(k / 6, k % 6) = m.pose.covariance[k];
        CHECK(gen::max_diff(have, want) <= 1e-3 * want.cwiseAbs().maxCoeff(), "covariance ", gen::str(have), " expected ", gen::str(want));
        s.label("covariance compared");
    };
    auto topics = [&](const std::string& t) { return shim::captured<Cloud>(ns + "debug/" + t); };
    auto after_s2s = [&](int i) {
        // reference scan to scan result
        if (A.method != "gicp") {
            refA.setInputSource(clouds[i]); refA.setInputTarget(clouds[i - 1]);
            Cloud out; refA.align(out, guess[i].cast<float>());
            s2s_result[i] = refA.getFinalTransformation();
        }
        if (debug) {
            const auto c = topics("current_pointcloud"), p = topics("previous_pointcloud"), g = topics("imu_guess_pointcloud"), r = topics("s2s_transformed_pointcloud"), a = topics("s2s_transformed_pointcloud_alt");
            CHECK(c.size() == 1 && p.size() == 1 && g.size() == 1 && r.size() == 1 && a.size() == (alt ? 1u : 0u), "debug clouds");
            clouds_near(c[0], *clouds[i], Eigen::Matrix4d::Identity(), 0, true, "current cloud");
            clouds_near(p[0], *clouds[i - 1], Eigen::Matrix4d::Identity(), 0, true, "previous cloud");
            clouds_near(g[0], *clouds[i], guess[i], 1e-5, true, "guess cloud");
            clouds_near(r[0], *clouds[i], relative(i), tolerance(A), false, "aligned cloud");
            if (alt) clouds_near(a[0], *clouds[i], relative(i), tolerance(A), true, "aligned cloud (alt)");
            for (const auto* v : {&c, &p, &g, &r}) CHECK((*v)[0].header.stamp == clouds[i - 1]->header.stamp, "debug stamp");
            s.label("debug clouds");
        }
        if (!s2m) judge(i, relative(i), A.method != "gicp" ? &refA : nullptr);
    };
    auto step = [&] {
        shim::bus().published.clear();
        feed();
        if (fed > 1) after_s2s(fed - 1);
        else CHECK(shim::count(OUT) == 0, "a transform from the first cloud");
    };

    if (!s2m) {
        while (fed < n) {
            step();
            if (s.chance(1, 3)) {
                // local maps are of no concern then, and must not hold the node up
                shim::on_sleep() = [&](double) { shim::node_ok() = false; };
                shim::bus().published.clear();
                if (fed > 1) shim::inject(ns + "mapping/local_map", *maps[fed - 1]);
                CHECK(shim::node_ok(), "waiting for a scan to map registration that is disabled");
                CHECK(shim::count(OUT) == 0, "transform from a map while scan to map is disabled");
                shim::on_sleep() = nullptr;
            }
        }
    } else {
        int mapped = 1;
        std::string failed;
        bool waited = false, halted = false;
        int needless = 0;
        shim::on_sleep() = [&](double) {
            waited = true;
            try {
                if (fed >= mapped) {  // the scan of this map was registered already
                    if (++needless > 20) throw pbt::Fail("a map keeps waiting although its scan was registered");
                    return;
                }
                if (s.chance(1, 6)) { halted = true; shim::node_ok() = false; return; }
                if (s.chance(1, 3)) return;
                step();
            } catch (const std::exception& e) { failed = e.what(); shim::node_ok() = false; }
        };
        int idle = 0;
        while (mapped < n) {
            if (fed < n && (s.boolean() || ++idle > 50)) { step(); continue; }
            const int i = mapped++;
            waited = false;
            needless = 0;
            shim::bus().published.clear();
            CHECK(shim::inject(ns + "mapping/local_map", *maps[i]) == 1, "local maps not subscribed");
            if (!failed.empty()) throw pbt::Fail(failed);
            if (waited) s.label("map before its scan");
            if (halted) {
                CHECK(shim::count(OUT) == 0, "a transform after shutdown");
                s.label("shut down while waiting");
                // nothing may hang afterwards
                shim::on_sleep() = nullptr;
                if (fed < n) { shim::node_ok() = true; shim::bus().published.clear(); feed(); }
                return;
            }
            CHECK(fed > i, "harness: map without a scan");
            CHECK(shim::count(OUT) == 1, "one transform per map, got ", shim::count(OUT));
            pcl::Registration<PointT, PointT>* ref = nullptr;
            if (A.method != "gicp" && B.method != "gicp") {
                refB.setInputSource(clouds[i]); refB.setInputTarget(maps[i]);
                Cloud out; refB.align(out, s2s_result.at(i));
                ref = &refB;
            }
            judge(i, offset[i] * relative(i), ref);
            if (debug) {
                const auto r = topics("s2m_transformed_pointcloud"), a = topics("s2m_transformed_pointcloud_alt");
                CHECK(r.size() == 1 && a.size() == (alt ? 1u : 0u), "debug clouds of scan to map");
                clouds_near(r[0], *clouds[i], offset[i] * relative(i), tolerance(B), false, "cloud aligned to the map");
                if (alt) clouds_near(a[0], *clouds[i], offset[i] * relative(i), tolerance(B), true, "cloud aligned to the map (alt)");
                CHECK(r[0].header.stamp == maps[i]->header.stamp, "debug stamp of scan to map");
            }
        }
    }
    s.nontrivial(calibrated && n >= 3);
    s.note() << n << " clouds of " << w.p.size() << " points, " << last.method << (s2m ? " to map" : " to scan");
}

template<typename P> void set_param(pbt::Src& s, const std::string& name, P& v, P x) { if (s.boolean()) { v = x; shim::set_param(name, X(v)); } }
}

PROPERTY(motion_normals, 240, 6000, "three or more clouds and a calibrated sensor") { motion<pcl::PointNormal, false>(s); }
PROPERTY(motion_unit_vectors, 240, 6000, "three or more clouds and a calibrated sensor") { motion<PointNormalUnit, true>(s); }

PROPERTY(methods, 2000, 40000, "two or more parameters away from their defaults") {
    typedef pcl::PointNormal P;
    shim::bus().reset();
    ros::NodeHandle nh("serpent");
    const std::string prefix = s.pick({std::string("s2s/"), std::string("s2m/")}), q = ns + prefix;
    const std::string other = ns + (prefix == "s2s/" ? "s2m/" : "s2s/");
    const std::vector<std::string> names{"icp", "gicp", "fast_gicp", "fast_gicp_st", "fast_vgicp", "ndt"};
    const std::string method = s.pick(names);
    if (method != "fast_gicp" || s.boolean()) shim::set_param(q + "method", method);
    shim::set_param(other + "method", s.pick(names));
    shim::set_param(other + "base/maximum_iterations", 77);
    int it = method == "ndt" ? 35 : 10, ransac = 0, gk = 20, gi = 20, threads = 4, fk = 20;
    double rt = 0.05, md = std::numeric_limits<double>::max(), te = 0, tr = 0, ef = 0, gr = 2e-3, gtt = 1e-2, grt = 1e-2, lr = 2e-3, lam = 1e-9, vr = 1.0, nr = 1.0, step = 0.1, outl = 0.55;
    bool rec = false, dbg = false;
    std::string reg = "PLANE", acc = "ADDITIVE", near = "DIRECT1";
    int away = 0;
    auto I = [&](const char* n, int& v) { if (s.boolean()) { v = static_cast<int>(s.integer(1, 60)); shim::set_param(q + n, X(v)); ++away; } };
    auto D = [&](const char* n, double& v) { if (s.boolean()) { v = static_cast<double>(s.integer(1, 640)) / 128.0; shim::set_param(q + n, X(v)); ++away; } };
    auto S = [&](const char* n, std::string& v, const std::vector<std::string>& o) { if (s.boolean()) { v = s.pick(o); shim::set_param(q + n, X(v)); ++away; } };
    I("base/maximum_iterations", it); I("base/ransac_iterations", ransac); D("base/ransac_outlier_rejection_threshold", rt);
    D("base/max_correspondence_distance", md); D("base/transformation_epsilon", te); D("base/transformation_rotation_epsilon", tr); D("base/euclidean_fitness_epsilon", ef);
    if (s.boolean()) { rec = true; shim::set_param(q + "icp/use_reciprocal_correspondences", true); }
    D("gicp/rotation_epsilon", gr); I("gicp/correspondence_randomness", gk); I("gicp/maximum_optimizer_iterations", gi);
    D("gicp/translation_gradient_tolerance", gtt); D("gicp/rotation_gradient_tolerance", grt);
    D("lsq/rotation_epsilon", lr); D("lsq/initial_lambda_factor", lam);
    if (s.boolean()) { dbg = true; shim::set_param(q + "lsq/debug_print", true); }
    I("fast_gicp/num_threads", threads); I("fast_gicp/correspondence_randomness", fk);
    const std::vector<std::string> regs{"NONE", "MIN_EIG", "NORMALIZED_MIN_EIG", "PLANE", "FROBENIUS"}, accs{"ADDITIVE", "ADDITIVE_WEIGHTED", "MULTIPLICATIVE"}, nears{"DIRECT27", "DIRECT7", "DIRECT1", "DIRECT_RADIUS"};
    S("fast_gicp/regularization_method", reg, regs); S("fast_vgicp/voxel_accumulation_mode", acc, accs); S("fast_vgicp/neighbor_search_method", near, nears);
    D("fast_vgicp/resolution", vr); D("ndt/resolution", nr); D("ndt/step_size", step); D("ndt/outlier_ratio", outl);

    const auto r = serpent::registration_method<P, P>(nh, prefix);
    CHECK(r, "no registration");
    CHECK(r->getMaximumIterations() == it, method, " maximum iterations ", r->getMaximumIterations(), " expected ", it);
    CHECK(r->getRANSACIterations() == ransac, method, " RANSAC iterations ", r->getRANSACIterations());
    CHECK(r->getRANSACOutlierRejectionThreshold() == rt, method, " RANSAC threshold ", r->getRANSACOutlierRejectionThreshold());
    CHECK(r->getMaxCorrespondenceDistance() == md, method, " correspondence distance ", r->getMaxCorrespondenceDistance(), " expected ", md);
    CHECK(r->getTransformationEpsilon() == te, method, " transformation epsilon ", r->getTransformationEpsilon());
    CHECK(r->getTransformationRotationEpsilon() == tr, method, " transformation rotation epsilon ", r->getTransformationRotationEpsilon());
    CHECK(r->getEuclideanFitnessEpsilon() == ef, method, " fitness epsilon ", r->getEuclideanFitnessEpsilon());
    auto* icp = dynamic_cast<pcl::IterativeClosestPoint<P, P>*>(r.get());
    auto* gicp = dynamic_cast<pcl::GeneralizedIterativeClosestPoint<P, P>*>(r.get());
    auto* lsq = dynamic_cast<fast_gicp::LsqRegistration<P, P>*>(r.get());
    auto* fast = dynamic_cast<fast_gicp::FastGICP<P, P>*>(r.get());
    auto* st = dynamic_cast<fast_gicp::FastGICPSingleThread<P, P>*>(r.get());
    auto* vg = dynamic_cast<fast_gicp::FastVGICP<P, P>*>(r.get());
    auto* ndt = dynamic_cast<pcl::NormalDistributionsTransform<P, P>*>(r.get());
    CHECK((icp && !gicp && !lsq) == (method == "icp") && (gicp != nullptr) == (method == "gicp") && (fast != nullptr) == (method.rfind("fast_", 0) == 0) && (st != nullptr) == (method == "fast_gicp_st") &&
        (vg != nullptr) == (method == "fast_vgicp") && (ndt != nullptr) == (method == "ndt"), "method ", method, " gave another one");
    if (method == "icp" || gicp) CHECK(icp->getUseReciprocalCorrespondences() == rec, method, " reciprocal correspondences");
    if (gicp) CHECK(gicp->getRotationEpsilon() == gr && gicp->getCorrespondenceRandomness() == gk && gicp->getMaximumOptimizerIterations() == gi, "GICP parameters ", gicp->getRotationEpsilon(), " ", gicp->getCorrespondenceRandomness(), " ", gicp->getMaximumOptimizerIterations());
    if (gicp) CHECK(gicp->getTranslationGradientTolerance() == gtt && gicp->getRotationGradientTolerance() == grt, "GICP gradient tolerances ", gicp->getTranslationGradientTolerance(), " ", gicp->getRotationGradientTolerance(), " expected ", gtt, " ", grt);
    if (fast) {
        CHECK(fast->rotation_epsilon == lr && fast->initial_lambda_factor == lam && fast->debug_print == dbg, "least squares parameters ", fast->rotation_epsilon, " ", fast->initial_lambda_factor, " ", fast->debug_print);
        CHECK(fast->num_threads == (st ? 1 : threads), "threads ", fast->num_threads);
        CHECK(fast->correspondence_randomness == fk, "correspondence randomness ", fast->correspondence_randomness);
        CHECK(static_cast<int>(fast->regularization_method) == std::find(regs.begin(), regs.end(), reg) - regs.begin(), "regularisation ", reg);
    }
    if (vg) {
        CHECK(vg->resolution == vr, "resolution ", vg->resolution);
        CHECK(static_cast<int>(vg->voxel_mode) == std::find(accs.begin(), accs.end(), acc) - accs.begin(), "voxel accumulation ", acc);
        CHECK(static_cast<int>(vg->search_method) == std::find(nears.begin(), nears.end(), near) - nears.begin(), "neighbour search ", near);
    }
    if (ndt) CHECK(ndt->getResolution() == static_cast<float>(nr) && ndt->getStepSize() == step && ndt->getOulierRatio() == outl, "NDT parameters ", ndt->getResolution(), " ", ndt->getStepSize(), " ", ndt->getOulierRatio());
    s.label(method);
    s.nontrivial(away >= 2);
    s.note() << method << " " << away << " parameters set";
}

PROPERTY(rejected, 600, 6000, "always") {
    typedef pcl::PointNormal P;
    shim::bus().reset();
    X lidar, frames, b, root;
    lidar["frame_id"] = std::string("lidar"); frames["lidar"] = lidar; b["frames"] = frames; root["base_link"] = b;
    shim::set_param(ns + "body_frames", root);
    std::string bad = s.pick({std::string(""), std::string("ICP"), std::string("plane"), std::string("NOT A METHOD"), std::string("DIRECT"), std::string("fast"), std::string("icp "), std::string("CENSI_")});
    const std::string c = ns + "registration_covariance/";
    switch (s.draw(11)) {
        case 0: shim::set_param(ns + "s2s/method", bad); break;
        case 1: shim::set_param(ns + "s2m/method", bad); break;
        case 2: shim::set_param(ns + "s2s/fast_gicp/regularization_method", bad); break;
        case 3: shim::set_param(ns + "s2s/method", std::string("fast_vgicp")); shim::set_param(ns + "s2s/fast_vgicp/voxel_accumulation_mode", bad); break;
        case 4: shim::set_param(ns + "s2m/method", std::string("fast_vgicp")); shim::set_param(ns + "s2m/fast_vgicp/neighbor_search_method", bad); break;
        case 5: shim::set_param(c + "method", bad); break;
        case 6: shim::set_param(c + "model", bad); break;
        case 7: shim::set_param(c + "point_covariance/method", bad); break;
        case 8: shim::set_param(c + "point_covariance/method", std::string("VOXEL_SIZE")); shim::set_param(ns + "voxel_grid_filter/enabled", false); break;
        case 9: shim::set_param(c + "method", std::string("LLS")); if (s.boolean()) shim::set_param(c + "point_covariance/method", s.pick({std::string("RANGE"), std::string("RANGE_BIAS")})); break;
        case 10: shim::set_param(c + "point_covariance/range_noise", s.pick({0.0, -0.1})); break;
        default: shim::set_param(c + "point_covariance/method", std::string("RANGE_BIAS")); shim::set_param(c + "point_covariance/range_bias_noise", s.pick({0.0, -0.1})); break;
    }
    CHECK_THROWS(serpent::Registration<P>(), "unusable settings accepted");
    s.nontrivial();
}
