// P12: registration correspondences and cloud-to-cloud distances against exhaustive search.
#include <geometry_msgs/TransformStamped.h>
#include <pcl/registration/icp.h>
#include <pcl/registration/registration.h>
#include <pointcloud_tools/compute_distances.hpp>
#include <pointcloud_tools/registration_utilities.hpp>

#include "gen.hpp"

namespace {
// A registration whose result is the transform given to it.
template<typename S, typename T, typename Scalar>
class FixedRegistration : public pcl::Registration<S, T, Scalar> {
public:
    typedef pcl::Registration<S, T, Scalar> Base;
    Eigen::Matrix<Scalar, 4, 4> result;
    FixedRegistration() { this->reg_name_ = "fixed"; }
protected:
    void computeTransformation(typename Base::PointCloudSource& out, const Eigen::Matrix<Scalar, 4, 4>&) override {
        this->final_transformation_ = result;
        pcl::transformPointCloud(*this->input_, out, result);
        this->converged_ = true;
    }
};

template<typename P>
typename pcl::PointCloud<P>::Ptr cloud(pbt::Src& s, int lo, int hi, double mag) {
    typename pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>);
    const int n = static_cast<int>(s.size(lo, hi));
    for (int i = 0; i < n; ++i) {
        P p;
        if (i > 0 && s.chance(1, 8)) p = (*c)[s.draw(i - 1)];
        else p.getVector3fMap() = Eigen::Vector3d(s.uniform(-mag, mag), s.uniform(-mag, mag), s.uniform(-mag, mag)).cast<float>();
        c->push_back(p);
    }
    return c;
}

template<typename S, typename T, typename Scalar>
void correspond(pbt::Src& s) {
    const double mag = s.boolean() ? 2.0 : 20.0;
    auto source = cloud<S>(s, 1, 20, mag);
    auto target = cloud<T>(s, 1, 20, mag);
    const Eigen::Matrix4d X = gen::isometry(s, mag).matrix();
    FixedRegistration<S, T, Scalar> reg;
    reg.result = X.cast<Scalar>();
    const bool reciprocal = s.boolean();
    const bool subset = s.chance(1, 2);
    std::vector<int> idx;
    if (subset) {
        for (std::size_t i = 0; i < source->size(); ++i) if (s.chance(2, 3)) idx.push_back(static_cast<int>(i));
        if (idx.empty()) idx.push_back(0);
        if (s.boolean()) std::reverse(idx.begin(), idx.end());
    } else for (std::size_t i = 0; i < source->size(); ++i) idx.push_back(static_cast<int>(i));
    double maxd = std::numeric_limits<double>::infinity();
    reg.setInputSource(source);
    reg.setInputTarget(target);
    if (s.chance(3, 4)) { maxd = s.chance(1, 8) ? 0.0 : s.uniform(0.05, 1.0) * mag; reg.setMaxCorrespondenceDistance(maxd); }
    pcl::IndicesPtr indices(new pcl::Indices(idx.begin(), idx.end()));
    if (subset || reciprocal) reg.setIndices(indices);
    if (reciprocal) {
        typename pcl::search::KdTree<S>::Ptr tree(new pcl::search::KdTree<S>);
        tree->setInputCloud(source, indices);
        reg.setSearchMethodSource(tree, true);
    }
    s.label(reciprocal ? "reciprocal" : "forward");
    if (subset) s.label("subset");
    pcl::PointCloud<S> aligned;
    reg.align(aligned);
    const auto c = reciprocal ? pct::compute_registration_correspondences(reg, true) :
            (s.boolean() ? pct::compute_registration_correspondences(reg, false) : pct::compute_registration_correspondences(reg));
    s.note() << "source " << source->size() << " indices " << idx.size() << " target " << target->size() << " max " << maxd << " found " << c->size();
    s.nontrivial(idx.size() > 1 && target->size() > 1);
    const double tol = 1e-4 * (1.0 + mag + X.block<3, 1>(0, 3).norm());
    auto moved = [&](int i) -> Eigen::Vector3d { return X.block<3, 3>(0, 0) * (*source)[i].getVector3fMap().template cast<double>() + X.block<3, 1>(0, 3); };
    auto dist = [&](int i, int j) { return (moved(i) - (*target)[j].getVector3fMap().template cast<double>()).norm(); };
    auto best_for_source = [&](int i) { double b = 1e300; for (std::size_t j = 0; j < target->size(); ++j) b = std::min(b, dist(i, static_cast<int>(j))); return b; };
    auto best_for_target = [&](int j) { double b = 1e300; for (int i : idx) b = std::min(b, dist(i, j)); return b; };
    std::map<int, int> seen;
    std::vector<int> order;
    for (const auto& k : *c) {
        const int i = k.index_query, j = k.index_match;
        CHECK(std::find(idx.begin(), idx.end(), i) != idx.end(), "source index ", i, " is not among the registered points");
        CHECK(j >= 0 && j < static_cast<int>(target->size()), "target index ", j);
        const double d = dist(i, j);
        CHECK(std::abs(k.distance - d) <= tol, "distance ", k.distance, " expected ", d);
        CHECK(d <= maxd + tol, "beyond the maximum distance: ", d, " > ", maxd);
        const double b = reciprocal ? best_for_target(j) : best_for_source(i);
        CHECK(d <= b + tol, "pair (", i, ",", j, ") at ", d, " is not the nearest (", b, ")");
        const int key = reciprocal ? j : i;
        CHECK(seen[key]++ == 0, "point ", key, " paired twice");
        order.push_back(key);
    }
    const auto expect = [&](int key, double b) { if (b < maxd - tol) CHECK(seen.count(key), "point ", key, " at ", b, " is missing (max ", maxd, ")"); };
    if (reciprocal) for (std::size_t j = 0; j < target->size(); ++j) expect(static_cast<int>(j), best_for_target(static_cast<int>(j)));
    else for (int i : idx) expect(i, best_for_source(i));
}
}

PROPERTY(correspondences, 4000, 100000, "more than one point on each side") {
    switch (s.draw(2)) {
        case 0: correspond<pcl::PointXYZ, pcl::PointXYZ, float>(s); break;
        case 1: correspond<pcl::PointNormal, pcl::PointNormal, float>(s); break;
        default: correspond<pcl::PointXYZ, pcl::PointXYZ, double>(s); break;
    }
}

PROPERTY(reciprocal_without_restricted_search_rejected, 500, 5000, "a reciprocal request whose source search covers other points") {
    auto source = cloud<pcl::PointXYZ>(s, 2, 10, 5.0);
    auto target = cloud<pcl::PointXYZ>(s, 2, 10, 5.0);
    FixedRegistration<pcl::PointXYZ, pcl::PointXYZ, float> reg;
    reg.result = gen::isometry(s, 2.0).matrix().cast<float>();
    reg.setInputSource(source);
    reg.setInputTarget(target);
    pcl::IndicesPtr sub(new pcl::Indices(1, static_cast<int>(s.draw(source->size() - 1))));
    reg.setIndices(sub);
    typename pcl::search::KdTree<pcl::PointXYZ>::Ptr tree(new pcl::search::KdTree<pcl::PointXYZ>);
    tree->setInputCloud(source);
    reg.setSearchMethodSource(tree, true);
    s.nontrivial();
    pcl::PointCloud<pcl::PointXYZ> aligned;
    reg.align(aligned);
    CHECK_THROWS(pct::compute_registration_correspondences(reg, true));
}

PROPERTY(distances, 1500, 30000, "more than one target point and a transform other than the identity") {
    shim::bus().reset();
    const double mag = s.boolean() ? 2.0 : 20.0;
    auto source = cloud<pcl::PointXYZ>(s, 0, 20, mag);
    auto target = cloud<pcl::PointXYZ>(s, 1, 20, mag);
    const Eigen::Isometry3d X = gen::isometry(s, mag);
    const uint64_t stamp = 1000000ULL + s.draw(1000000000ULL);
    source->header.stamp = target->header.stamp = stamp;
    source->header.frame_id = s.pick<std::string>({"lidar", "map"});
    target->header.frame_id = s.pick<std::string>({"truth", "world"});
    const Eigen::Quaterniond q(X.rotation());
    bool asked = false;
    shim::bus().lookup = [&](const std::string& to, const std::string& from, const ros::Time& t) -> std::any {
        asked = true;
        if (to != source->header.frame_id || from != target->header.frame_id || t.toNSec() != stamp * 1000ULL)
            throw std::runtime_error("lookup of " + from + " to " + to);
        geometry_msgs::TransformStamped m;
        m.header.frame_id = to;
        m.child_frame_id = from;
        m.transform.translation.x = X.translation().x(); m.transform.translation.y = X.translation().y(); m.transform.translation.z = X.translation().z();
        m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z();
        return m;
    };
    pct::ComputePointToPointDistances<pcl::PointXYZ, pcl::PointXYZ> node;
    s.nontrivial(target->size() > 1 && source->size() > 0 && (X.matrix() - Eigen::Matrix4d::Identity()).norm() > 1e-6);
    s.note() << "source " << source->size() << " target " << target->size();
    shim::inject("/node/input_source", *source);
    CHECK(shim::count("/node/output") == 0, "output before both clouds arrived");
    shim::inject("/node/input_target", *target);
    const auto out = shim::captured<pcl::PCLPointCloud2>("/node/output");
    CHECK(out.size() == 1, "outputs ", out.size());
    const auto& o = out[0];
    CHECK(o.header.frame_id == source->header.frame_id && o.header.stamp == stamp, "header");
    CHECK(static_cast<std::size_t>(o.width) * o.height == source->size() && o.row_step == o.point_step * o.width && o.data.size() == static_cast<std::size_t>(o.row_step) * o.height, "layout");
    auto field = [&](const std::string& n, std::size_t i) {
        for (const auto& f : o.fields) if (f.name == n) {
            CHECK(f.datatype == pcl::PCLPointField::FLOAT32 && f.offset + 4 <= o.point_step, "field ", n);
            float v;
            std::memcpy(&v, o.data.data() + i * o.point_step + f.offset, 4);
            return v;
        }
        throw pbt::Fail("no field " + n);
    };
    const double tol = 1e-4 * (1.0 + mag + X.translation().norm());
    for (std::size_t i = 0; i < source->size(); ++i) {
        const auto& p = (*source)[i];
        CHECK(field("x", i) == p.x && field("y", i) == p.y && field("z", i) == p.z, "coordinates of point ", i);
        double b = 1e300;
        for (const auto& t : *target) b = std::min(b, (X * t.getVector3fMap().cast<double>() - p.getVector3fMap().cast<double>()).norm());
        CHECK(std::abs(field("distance", i) - b) <= tol, "distance ", field("distance", i), " expected ", b);
    }
    (void)asked;
}
