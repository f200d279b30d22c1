// P11: typed cloud transforms and point types.
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/transform_pointcloud.hpp>

#include "gen.hpp"

namespace {
const float NANF = std::numeric_limits<float>::quiet_NaN();
const float INFF = std::numeric_limits<float>::infinity();

bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }

Eigen::Vector3f v3(pbt::Src& s, double mag) { return gen::vec3(s, mag).cast<float>(); }

// ---- uniform access to the optional parts of each point type
template<typename P> struct Has { static constexpr bool normal = false, unit = false, cov = false, rot = false, curv = false; };
template<> struct Has<pcl::PointNormal> { static constexpr bool normal = true, unit = false, cov = false, rot = false, curv = true; };
template<> struct Has<pcl::PointXYZINormal> { static constexpr bool normal = true, unit = false, cov = false, rot = false, curv = true; };
template<> struct Has<PointNormalUnit> { static constexpr bool normal = true, unit = true, cov = false, rot = false, curv = true; };
template<> struct Has<PointNormalCovariance> { static constexpr bool normal = true, unit = false, cov = true, rot = false, curv = true; };

template<typename P>
P random_point(pbt::Src& s, bool finite) {
    P p;
    p.getVector3fMap() = v3(s, s.chance(1, 6) ? 1000.0 : 20.0);
    if (!finite) p.data[s.draw(2)] = s.boolean() ? NANF : (s.boolean() ? INFF : -INFF);
    if constexpr (Has<P>::normal) {
        Eigen::Vector3f n = v3(s, 1.0);
        if (s.boolean() && n.norm() > 0) n.normalize();
        p.getNormalVector3fMap() = n;
        p.curvature = static_cast<float>(s.real(-1, 1));
    }
    if constexpr (Has<P>::unit) {
        Eigen::Vector3f n = v3(s, 1.0);
        if (s.boolean() && n.norm() > 0) n.normalize();
        p.getUnitVector3fMap() = n;
    }
    if constexpr (Has<P>::cov) {
        for (int k = 0; k < 6; ++k) p.covariance[k] = static_cast<float>(s.real(-3, 3));
    }
    if constexpr (std::is_same_v<P, pcl::PointXYZINormal>) p.intensity = static_cast<float>(s.real(-5, 5));
    return p;
}

template<typename P>
typename pcl::PointCloud<P> random_cloud(pbt::Src& s) {
    typename pcl::PointCloud<P> c;
    const int n = static_cast<int>(s.size(0, 12));
    const bool organised = s.chance(1, 4) && n >= 2;
    c.is_dense = !s.chance(1, 3);
    if (!c.is_dense) s.label("non-dense");
    c.width = organised ? n / 2 : n;
    c.height = organised ? 2 : 1;
    for (std::size_t i = 0; i < static_cast<std::size_t>(c.width) * c.height; ++i)
        c.points.push_back(random_point<P>(s, c.is_dense || !s.chance(1, 3)));
    c.header.stamp = s.draw(1000000);
    c.header.seq = static_cast<uint32_t>(s.draw(100));
    c.header.frame_id = s.pick<std::string>({"lidar", "map", "", "body_frd"});
    c.sensor_origin_ = Eigen::Vector4f(static_cast<float>(s.draw(3)), 1.f, 2.f, 0.f);
    c.sensor_orientation_ = Eigen::Quaternionf(Eigen::AngleAxisf(static_cast<float>(s.unit()), Eigen::Vector3f::UnitZ()));
    return c;
}

template<typename P>
void require_transformed(const pcl::PointCloud<P>& in, const pcl::PointCloud<P>& out, const Eigen::Matrix4d& T,
        bool all_fields, double rel = 4e-6) {
    CHECK(out.size() == in.size(), "size ", out.size(), " vs ", in.size());
    CHECK(out.width == in.width && out.height == in.height, "dimensions");
    CHECK(out.is_dense == in.is_dense, "density flag");
    CHECK(out.header.stamp == in.header.stamp && out.header.seq == in.header.seq && out.header.frame_id == in.header.frame_id, "header");
    CHECK(out.sensor_origin_ == in.sensor_origin_ && out.sensor_orientation_.coeffs() == in.sensor_orientation_.coeffs(), "sensor pose of the cloud");
    const Eigen::Matrix3d R = T.block<3, 3>(0, 0);
    const Eigen::Vector3d t = T.block<3, 1>(0, 3);
    for (std::size_t i = 0; i < in.size(); ++i) {
        const bool finite = std::isfinite(in[i].x) && std::isfinite(in[i].y) && std::isfinite(in[i].z);
        if (!finite) {
            if (!all_fields) continue;  // value fields of skipped points are not copied
            for (int k = 0; k < 3; ++k) CHECK(same(out[i].data[k], in[i].data[k]), "non-finite point ", i, " changed");
            if constexpr (Has<P>::normal) for (int k = 0; k < 3; ++k) CHECK(same(out[i].data_n[k], in[i].data_n[k]), "normal of non-finite point changed");
            if constexpr (Has<P>::unit) for (int k = 0; k < 3; ++k) CHECK(same(out[i].data_u[k], in[i].data_u[k]), "unit of non-finite point changed");
            if constexpr (Has<P>::cov) for (int k = 0; k < 6; ++k) CHECK(same(out[i].covariance[k], in[i].covariance[k]), "covariance of non-finite point changed");
        } else {
            const Eigen::Vector3d p = in[i].getVector3fMap().template cast<double>();
            const Eigen::Vector3d e = R * p + t;
            CHECK(gen::max_diff(out[i].getVector3fMap().template cast<double>(), e) <= rel * (1.0 + p.norm() + t.norm()),
                    "position ", i, " got ", gen::str(out[i].getVector3fMap()), " expected ", gen::str(e));
            CHECK(out[i].data[3] == 1.0f, "homogeneous coordinate ", out[i].data[3]);
            if constexpr (Has<P>::normal) {
                const Eigen::Vector3d n = in[i].getNormalVector3fMap().template cast<double>();
                CHECK(gen::max_diff(out[i].getNormalVector3fMap().template cast<double>(), R * n) <= rel * (1.0 + n.norm()),
                        "normal ", i, " got ", gen::str(out[i].getNormalVector3fMap()), " expected ", gen::str(Eigen::Vector3d(R * n)));
            }
            if constexpr (Has<P>::unit) {
                const Eigen::Vector3d n(in[i].ux, in[i].uy, in[i].uz);
                CHECK(gen::max_diff(Eigen::Vector3d(out[i].ux, out[i].uy, out[i].uz), R * n) <= rel * (1.0 + n.norm()), "unit vector ", i);
            }
            if constexpr (Has<P>::cov) {
                const float* c = in[i].covariance;
                Eigen::Matrix3d C;
                C << c[0], c[1], c[2], c[1], c[3], c[4], c[2], c[4], c[5];
                const Eigen::Matrix3d E = R * C * R.transpose();
                const float* o = out[i].covariance;
                Eigen::Matrix3d O;
                O << o[0], o[1], o[2], o[1], o[3], o[4], o[2], o[4], o[5];
                CHECK(gen::max_diff(O, E) <= 5 * rel * gen::scale_of(C), "covariance ", i, " got ", gen::str(O), " expected ", gen::str(E));
            }
        }
        if (all_fields) {
            if constexpr (Has<P>::curv) CHECK(same(out[i].curvature, in[i].curvature), "curvature ", i);
            if constexpr (std::is_same_v<P, pcl::PointXYZINormal>) CHECK(same(out[i].intensity, in[i].intensity), "intensity ", i);
        }
    }
}

// how: which API; arg: which transform representation
template<typename P>
void apply(const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const Eigen::Matrix4d& T, int how, int arg, bool all) {
    Eigen::Isometry3d I;
    I.matrix() = T;
    const Eigen::Affine3f A(Eigen::Affine3d(I).cast<float>());
    const Eigen::Matrix4f Tf = T.cast<float>();
    auto with = [&](auto&& t) {
        if (how == 0) {
            serpent::transform_pointcloud(in, out, t);
        } else if constexpr (Has<P>::unit) {
            if (how == 1) pct::transform_pointcloud_with_normals_and_unit_vectors(in, out, t);
            else pct::transform_pointcloud_with_normals_and_unit_vectors(in, out, t, all);
        } else if constexpr (Has<P>::cov) {
            if (how == 1) pct::transform_pointcloud_with_normals_and_covariances(in, out, t);
            else pct::transform_pointcloud_with_normals_and_covariances(in, out, t, all);
        }
    };
    switch (arg) {
        case 0: with(Tf); break;
        case 1: with(T); break;
        case 2: with(I); break;
        default: with(A); break;
    }
}

template<typename P>
void transform_case(pbt::Src& s, const char* name) {
    s.label(name);
    const Eigen::Matrix4d T = gen::isometry(s, s.boolean() ? 5.0 : 200.0).matrix();
    const int how = (Has<P>::unit || Has<P>::cov) ? static_cast<int>(s.draw(2)) : 0;
    const int arg = static_cast<int>(s.draw(3));
    const bool all = how != 2 || !s.chance(1, 2);
    const pcl::PointCloud<P> in = random_cloud<P>(s);
    s.note() << name << " n=" << in.size() << " dense=" << in.is_dense << " api=" << how << " arg=" << arg;
    s.nontrivial(in.size() > 0 && (T - Eigen::Matrix4d::Identity()).norm() > 1e-6);
    // output cloud with earlier contents
    pcl::PointCloud<P> out;
    if (s.boolean()) out = random_cloud<P>(s);
    const pcl::PointCloud<P> in_before(in);
    apply(in, out, T, how, arg, all);
    require_transformed(in, out, T, all);
    // input untouched
    CHECK(in.size() == in_before.size());
    for (std::size_t i = 0; i < in.size(); ++i) for (int k = 0; k < 3; ++k) CHECK(same(in[i].data[k], in_before[i].data[k]), "input modified");
    // in place gives the same
    pcl::PointCloud<P> ip(in);
    apply(ip, ip, T, how, arg, true);
    require_transformed(in, ip, T, true);
    // composition and inverse
    if (all) {
        const Eigen::Matrix4d U = gen::isometry(s, 5.0).matrix();
        pcl::PointCloud<P> two;
        apply(out, two, U, how, arg, all);
        require_transformed(in, two, U * T, all, 2e-5);
        pcl::PointCloud<P> back;
        apply(out, back, gen::inverse4(T), how, arg, all);
        // error scales with the intermediate positions
        for (std::size_t i = 0; i < in.size(); ++i) {
            if (!std::isfinite(in[i].x) || !std::isfinite(in[i].y) || !std::isfinite(in[i].z)) continue;
            const double sc = 1.0 + in[i].getVector3fMap().norm() + T.block<3, 1>(0, 3).norm();
            CHECK(gen::max_diff(back[i].getVector3fMap(), in[i].getVector3fMap()) <= 2e-5 * sc, "inverse does not restore point ", i);
        }
    }
}
}

PROPERTY(transform_clouds, 6000, 200000, "at least one point and a transform other than the identity") {
    switch (s.draw(3)) {
        case 0: transform_case<pcl::PointNormal>(s, "PointNormal"); break;
        case 1: transform_case<PointNormalUnit>(s, "PointNormalUnit"); break;
        case 2: transform_case<PointNormalCovariance>(s, "PointNormalCovariance"); break;
        default: transform_case<pcl::PointXYZINormal>(s, "PointXYZINormal"); break;
    }
}

PROPERTY(covariance_accessors, 2000, 40000, "a covariance with six distinct entries") {
    auto go = [&](auto p) {
        Eigen::Matrix3f C = gen::spd<3>(s).cast<float>();
        p.setCovariance(C);
        std::set<float> d(p.covariance, p.covariance + 6);
        s.nontrivial(d.size() == 6);
        s.note() << gen::str(C);
        CHECK(gen::max_diff(p.getCovarianceMatrix(), C) == 0.0, "matrix round trip");
        CHECK(p.covariance_xx == C(0, 0) && p.covariance_xy == C(0, 1) && p.covariance_xz == C(0, 2) && p.covariance_yy == C(1, 1) &&
                p.covariance_yz == C(1, 2) && p.covariance_zz == C(2, 2), "named entries");
        const auto& cp = p;
        for (int k = 0; k < 6; ++k) {
            CHECK(cp.getCovarianceVector6fMap()[k] == p.covariance[k]);
            p.getCovarianceVector6fMap()[k] = static_cast<float>(k + 1);
            CHECK(p.covariance[k] == static_cast<float>(k + 1), "vector map writes through");
        }
        Eigen::Matrix3f E;
        E << 1, 2, 3, 2, 4, 5, 3, 5, 6;
        CHECK(gen::max_diff(p.getCovarianceMatrix(), E) == 0.0, "order of the stored entries");
    };
    if (s.boolean()) go(PointCovariance()); else go(PointNormalCovariance());
}

PROPERTY(point_construction, 3000, 60000, "a point with non-zero values") {
    s.nontrivial();
    auto f = [&] { return static_cast<float>(s.real(-50, 50)); };
    auto xyz = [&](auto& p) { p.x = f(); p.y = f(); p.z = f(); p.data[3] = f(); };
    auto eq = [&](const auto& a, const auto& b) {
        CHECK(a.x == b.x && a.y == b.y && a.z == b.z, "position");
        CHECK(a.data[3] == 1.0f, "homogeneous coordinate");
    };
    switch (s.draw(4)) {
        case 0: {
            _PointUnit u; xyz(u); u.ux = f(); u.uy = f(); u.uz = f(); u.data_u[3] = 7.f;
            const PointUnit p(u); eq(p, u);
            CHECK(p.ux == u.ux && p.uy == u.uy && p.uz == u.uz && p.data_u[3] == 0.f, "unit");
            CHECK(p.getUnitVector3fMap() == Eigen::Vector3f(p.u[0], p.u[1], p.u[2]) && p.u[0] == p.ux && p.u[1] == p.uy && p.u[2] == p.uz);
            const Eigen::Matrix3d o = p.get_unit_outer_product().cast<double>();
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                CHECK(std::abs(o(i, j) - double(p.u[i]) * p.u[j]) <= 1e-6 * (1.0 + std::abs(double(p.u[i]) * p.u[j])), "outer product");
            const PointUnit z; CHECK(z.x == 0 && z.y == 0 && z.z == 0 && z.data[3] == 1 && z.ux == 0 && z.uy == 0 && z.uz == 0 && z.data_u[3] == 0, "default");
            break;
        }
        case 1: {
            _PointNormalUnit u; xyz(u); u.ux = f(); u.uy = f(); u.uz = f(); u.normal_x = f(); u.normal_y = f(); u.normal_z = f(); u.curvature = f(); u.data_n[3] = 3; u.data_u[3] = 4;
            const PointNormalUnit p(u); eq(p, u);
            CHECK(p.ux == u.ux && p.uy == u.uy && p.uz == u.uz && p.data_u[3] == 0.f, "unit");
            CHECK(p.normal_x == u.normal_x && p.normal_y == u.normal_y && p.normal_z == u.normal_z && p.data_n[3] == 0.f && p.curvature == u.curvature, "normal");
            const PointNormalUnit z; CHECK(z.x == 0 && z.y == 0 && z.z == 0 && z.data[3] == 1 && z.ux == 0 && z.uy == 0 && z.uz == 0 && z.data_u[3] == 0 && z.normal_x == 0 && z.normal_y == 0 && z.normal_z == 0 && z.data_n[3] == 0 && z.curvature == 0, "default");
            break;
        }
        case 2: {
            _PointCovariance u; xyz(u); for (int k = 0; k < 6; ++k) u.covariance[k] = f();
            const PointCovariance p(u); eq(p, u);
            for (int k = 0; k < 6; ++k) CHECK(p.covariance[k] == u.covariance[k], "covariance entry ", k);
            const PointCovariance z; for (int k = 0; k < 6; ++k) CHECK(z.covariance[k] == 0, "default");
            CHECK(z.x == 0 && z.y == 0 && z.z == 0 && z.data[3] == 1);
            break;
        }
        case 3: {
            _PointNormalCovariance u; xyz(u); for (int k = 0; k < 6; ++k) u.covariance[k] = f();
            u.normal_x = f(); u.normal_y = f(); u.normal_z = f(); u.curvature = f(); u.data_n[3] = 3;
            const PointNormalCovariance p(u); eq(p, u);
            for (int k = 0; k < 6; ++k) CHECK(p.covariance[k] == u.covariance[k], "covariance entry ", k);
            CHECK(p.normal_x == u.normal_x && p.normal_y == u.normal_y && p.normal_z == u.normal_z && p.data_n[3] == 0.f && p.curvature == u.curvature, "normal");
            const PointNormalCovariance z; for (int k = 0; k < 6; ++k) CHECK(z.covariance[k] == 0, "default");
            CHECK(z.x == 0 && z.y == 0 && z.z == 0 && z.data[3] == 1 && z.normal_x == 0 && z.normal_y == 0 && z.normal_z == 0 && z.data_n[3] == 0 && z.curvature == 0);
            break;
        }
        default: {
            _PointAngleAxis u; xyz(u); u.rx = f(); u.ry = f(); u.rz = f(); u.data_r[3] = 3;
            const PointAngleAxis p(u); eq(p, u);
            CHECK(p.rx == u.rx && p.ry == u.ry && p.rz == u.rz && p.data_r[3] == 0.f, "rotation");
            const PointAngleAxis z; CHECK(z.x == 0 && z.y == 0 && z.z == 0 && z.data[3] == 1 && z.rx == 0 && z.ry == 0 && z.rz == 0 && z.data_r[3] == 0, "default");
            break;
        }
    }
}

PROPERTY(pose_points, 5000, 100000, "a pose with non-zero rotation") {
    const Eigen::Vector3d rv = gen::rotvec(s);
    const Eigen::Matrix3d R = gen::rodrigues(rv);
    const Eigen::Vector3d t = gen::vec3(s, 100.0);
    s.nontrivial(rv.norm() > 1e-9);
    const Eigen::Matrix3f Rf = R.cast<float>();
    const Eigen::Vector3f tf = t.cast<float>();
    const Eigen::Quaternionf q = Eigen::Quaterniond(R).cast<float>().normalized();
    const Eigen::Quaternionf qn(-q.w(), -q.x(), -q.y(), -q.z());
    const bool neg = s.boolean();
    const Eigen::Quaternionf& qq = neg ? qn : q;
    const Eigen::AngleAxisf aa = rv.norm() > 0 ? Eigen::AngleAxisf(static_cast<float>(rv.norm()), rv.normalized().cast<float>()) : Eigen::AngleAxisf(0.f, Eigen::Vector3f::UnitX());
    const Eigen::Translation<float, 3> tr(tf);
    const int kind = static_cast<int>(s.draw(11));
    s.note() << "kind " << kind << " rv " << gen::str(rv) << " t " << gen::str(t);
    PointAngleAxis p;
    switch (kind) {
        case 0: p = PointAngleAxis(Eigen::Isometry3f(gen::make_iso(R, t).cast<float>())); break;
        case 1: p = PointAngleAxis(tf, aa); break;
        case 2: p = PointAngleAxis(tf, qq); break;
        case 3: p = PointAngleAxis(tr, qq); break;
        case 4: p = PointAngleAxis(tr, Rf); break;
        case 5: p.setPose(Eigen::Isometry3f(gen::make_iso(R, t).cast<float>())); break;
        case 6: p.setPose(tf, aa); break;
        case 7: p.setPose(tf, qq); break;
        case 8: p.setPose(tf, Rf); break;
        case 9: p.setPose(tr, qq); break;
        case 10: p.setPose(tr, Rf); break;
        default:
            p.getVector3fMap() = tf;
            switch (s.draw(2)) { case 0: p.setAngleAxis(aa); break; case 1: p.setAngleAxis(qq); break; default: p.setAngleAxis(Rf); }
    }
    const double tol = 3e-5;
    CHECK(p.data[3] == 1.0f, "homogeneous coordinate ", p.data[3]);
    CHECK(p.data_r[3] == 0.0f, "rotation padding ", p.data_r[3]);
    CHECK(p.x == tf.x() && p.y == tf.y() && p.z == tf.z(), "position");
    // near pi single-precision extraction of the axis loses half the digits
    const double loose = rv.norm() > M_PI - 0.05 || rv.norm() < 0.05 ? 2e-3 : tol;
    const Eigen::Matrix3d Rp = gen::rodrigues(Eigen::Vector3d(p.rx, p.ry, p.rz));
    CHECK(gen::max_diff(Rp, R) <= loose, "stored rotation vector ", p.rx, ",", p.ry, ",", p.rz);
    CHECK(gen::max_diff(p.getRotationMatrix().cast<double>(), Rp) <= tol, "rotation matrix");
    CHECK(gen::max_diff(p.getQuaternion().toRotationMatrix().cast<double>(), Rp) <= tol, "quaternion");
    CHECK(gen::max_diff(p.getAngleAxis().toRotationMatrix().cast<double>(), Rp) <= tol, "angle axis");
    const Eigen::Matrix4d M = p.getIsometry().matrix().cast<double>();
    CHECK(gen::max_diff(M, gen::make_iso(Rp, tf.cast<double>()).matrix()) <= tol, "isometry");
    const double ang = std::sqrt(double(p.rx) * p.rx + double(p.ry) * p.ry + double(p.rz) * p.rz);
    CHECK(std::abs(p.angle() - ang) <= 1e-5 * (1 + ang), "angle");
    CHECK(std::abs(ang - std::min(rv.norm(), 2 * M_PI - rv.norm())) <= 2e-3 || (neg && std::abs(ang - rv.norm()) <= 2e-3) ||
            std::abs(ang - (2 * M_PI - rv.norm())) <= 2e-3, "angle magnitude ", ang, " vs ", rv.norm());
}

PROPERTY(cloud_helpers, 3000, 60000, "a cloud with at least one point") {
    const pcl::PointCloud<PointNormalUnit> in = random_cloud<PointNormalUnit>(s);
    s.nontrivial(in.size() > 0);
    const auto U = pct::extract_unit_vectors(in);
    CHECK(U.rows() == 3 && U.cols() == static_cast<int>(in.size()), "shape");
    for (std::size_t i = 0; i < in.size(); ++i) CHECK(U(0, i) == in[i].ux && U(1, i) == in[i].uy && U(2, i) == in[i].uz, "column ", i);
    // normals checked against the threshold (only thresholds clearly apart from every deviation are decided)
    const float thr = static_cast<float>(std::pow(10.0, -s.uniform(0.0, 6.0)));
    int expected = 0;
    bool clear = true;
    for (const auto& p : in) {
        const double n = std::sqrt(double(p.normal_x) * p.normal_x + double(p.normal_y) * p.normal_y + double(p.normal_z) * p.normal_z);
        const double d = std::abs(n - 1.0);
        if (std::abs(d - thr) < 1e-6) clear = false;
        if (d > thr) ++expected;
    }
    if (clear) CHECK(pct::check_normals(in, thr) == expected, "got ", pct::check_normals(in, thr), " expected ", expected);
    int exp_def = 0;
    clear = true;
    for (const auto& p : in) {
        const double n = std::sqrt(double(p.normal_x) * p.normal_x + double(p.normal_y) * p.normal_y + double(p.normal_z) * p.normal_z);
        if (std::abs(n - 1.0) < 1e-5) clear = false;
        if (std::abs(n - 1.0) > 1e-6) ++exp_def;
    }
    if (clear) CHECK(pct::check_normals(in) == exp_def, "default threshold");
}

namespace { struct TimedPoint { PCL_ADD_POINT4D; double t; float tf; PCL_MAKE_ALIGNED_OPERATOR_NEW }; struct TimedPointF { PCL_ADD_POINT4D; float t; PCL_MAKE_ALIGNED_OPERATOR_NEW }; }
PROPERTY(nanoseconds, 1000, 20000, "a cloud with at least one point") {
    pcl::PointCloud<TimedPoint> c;
    pcl::PointCloud<TimedPointF> f;
    std::vector<double> t;
    const int n = static_cast<int>(s.size(0, 10));
    s.nontrivial(n > 0);
    for (int i = 0; i < n; ++i) {
        t.push_back(std::floor(s.uniform(0, 2e9)));
        TimedPoint p{}; p.t = t.back(); p.x = float(i); c.push_back(p);
        TimedPointF q{}; q.t = static_cast<float>(t.back()); q.x = float(i); f.push_back(q);
    }
    pct::convert_ns_to_s(c);
    pct::convert_ns_to_s(f);
    CHECK(static_cast<int>(c.size()) == n);
    for (int i = 0; i < n; ++i) {
        CHECK(std::abs(c[i].t - t[i] * 1e-9) <= 1e-15 + 1e-14 * t[i] * 1e-9, "time ", c[i].t);
        CHECK(std::abs(f[i].t - t[i] * 1e-9) <= 1e-12 + 3e-7 * t[i] * 1e-9, "time ", f[i].t);
        CHECK(c[i].x == float(i), "other fields");
    }
}

// The text form of a point lists every coordinate once, in the order of the fields.
namespace {
template<typename P> void listed(const P& p, const std::vector<float>& want) {
    std::ostringstream o;
    o << p;
    std::string text = o.str();
    for (char& c : text) if (!std::strchr("0123456789.-+e", c)) c = ' ';
    std::istringstream in(text);
    std::vector<double> got;
    for (std::string w; in >> w;) if (w != "-") got.push_back(std::stod(w));
    CHECK(got.size() == want.size(), o.str(), " lists ", got.size(), " values of ", want.size());
    for (std::size_t i = 0; i < want.size(); ++i) CHECK(std::abs(got[i] - want[i]) <= 1e-5 * (1e-6 + std::abs(want[i])), o.str(), ": value ", i, " is not ", want[i]);
}
}
PROPERTY(text, 1000, 20000, "always") {
    float v[16];
    for (float& x : v) x = static_cast<float>(s.uniform(-100, 100));
    PointUnit u; u.x = v[0]; u.y = v[1]; u.z = v[2]; u.ux = v[3]; u.uy = v[4]; u.uz = v[5];
    listed(u, {v[0], v[1], v[2], v[3], v[4], v[5]});
    PointNormalUnit n; n.x = v[0]; n.y = v[1]; n.z = v[2]; n.normal_x = v[6]; n.normal_y = v[7]; n.normal_z = v[8]; n.curvature = v[9]; n.ux = v[3]; n.uy = v[4]; n.uz = v[5];
    listed(n, {v[0], v[1], v[2], v[6], v[7], v[8], v[3], v[4], v[5]});
    PointCovariance c; c.x = v[0]; c.y = v[1]; c.z = v[2];
    PointNormalCovariance d; d.x = v[0]; d.y = v[1]; d.z = v[2]; d.normal_x = v[6]; d.normal_y = v[7]; d.normal_z = v[8]; d.curvature = v[9];
    for (int k = 0; k < 6; ++k) c.covariance[k] = d.covariance[k] = v[10 + k];
    listed(c, {v[0], v[1], v[2], v[10], v[11], v[12], v[13], v[14], v[15]});
    listed(d, {v[0], v[1], v[2], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]});
    PointAngleAxis a; a.x = v[0]; a.y = v[1]; a.z = v[2]; a.rx = v[3]; a.ry = v[4]; a.rz = v[5];
    listed(a, {v[0], v[1], v[2], v[3], v[4], v[5]});
    s.nontrivial(true);
}
