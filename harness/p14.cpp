// P14: registration covariances assembled from all correspondences, against the published formulas.
#include <pcl/point_types.h>
#include <serpent/front_end/lidar/registration_covariance.hpp>

#include "icp_oracle.hpp"

namespace {
template<typename P, typename Scalar>
class FixedRegistration : public pcl::Registration<P, P, Scalar> {
public:
    typedef pcl::Registration<P, P, Scalar> Base;
    Eigen::Matrix<Scalar, 4, 4> result;
    FixedRegistration() { this->reg_name_ = "fixed"; }
protected:
    void computeTransformation(typename Base::PointCloudSource& out, const Eigen::Matrix<Scalar, 4, 4>&) override {
        this->final_transformation_ = result;
        out = *this->input_;
        this->converged_ = true;
    }
};

template<typename P>
P make_point(pbt::Src& s, const Eigen::Vector3d& at) {
    P p;
    p.getVector3fMap() = at.cast<float>();
    Eigen::Vector3d n(s.normal(), s.normal(), s.normal());
    if (n.norm() < 1e-6) n = Eigen::Vector3d::UnitX();
    p.getNormalVector3fMap() = n.normalized().cast<float>();
    if constexpr (std::is_same_v<P, PointNormalUnit>) {
        Eigen::Vector3d u = at.norm() > 1e-6 && s.boolean() ? at.normalized() : Eigen::Vector3d(s.normal(), s.normal(), s.normal());
        if (u.norm() < 1e-6) u = Eigen::Vector3d::UnitX();
        u.normalize();
        p.ux = static_cast<float>(u[0]); p.uy = static_cast<float>(u[1]); p.uz = static_cast<float>(u[2]);
    }
    return p;
}

enum Form { IID, RANGE, RANGE_BIAS, LLS };

template<typename P, typename Scalar, template<typename, typename> class M>
gen::Matrix6d library(FixedRegistration<P, Scalar>& reg, Form form, double v, double vb, int& count) {
    typedef M<P, P> Model;
    switch (form) {
        case IID: return serpent::censi_iid_covariance<Model, Scalar>(reg, v, count);
        case RANGE: return serpent::censi_range_covariance<Model, Scalar>(reg, v, count);
        case RANGE_BIAS: return serpent::censi_range_bias_covariance<Model, Scalar>(reg, v, vb, count);
        default: return serpent::lls_iid_covariance<Model, Scalar>(reg, v, count);
    }
}

template<typename P, typename Scalar>
void assemble(pbt::Src& s) {
    constexpr bool units = std::is_same_v<P, PointNormalUnit>;
    const bool plane = s.boolean(), lin = s.boolean();
    const Form form = static_cast<Form>(s.draw(3));
    const Eigen::Vector3d r0 = gen::rotvec(s) * (s.boolean() ? 1.0 : 0.05);
    Eigen::Matrix4d T0 = gen::make_iso(gen::rodrigues(r0), gen::vec3(s, 2.0)).matrix();
    // exact: coordinates are small multiples of 1/8, so that partners can coincide exactly after alignment
    const bool exact = s.chance(1, 4);
    if (exact) {
        T0.setIdentity();
        if (s.boolean()) { T0.block<3, 3>(0, 0).setZero(); T0(0, 1) = -1; T0(1, 0) = 1; T0(2, 2) = 1; }
        for (int k = 0; k < 3; ++k) T0(k, 3) = static_cast<double>(s.integer(-16, 16)) / 8;
    }
    const Eigen::Matrix<Scalar, 4, 4> TS = T0.cast<Scalar>();
    typename pcl::PointCloud<P>::Ptr source(new pcl::PointCloud<P>), target(new pcl::PointCloud<P>);
    const int n = static_cast<int>(s.integer(8, 24));
    for (int i = 0; i < n; ++i) {
        Eigen::Vector3d p(s.uniform(-3, 3), s.uniform(-3, 3), s.uniform(-3, 3));
        if (exact) p = Eigen::Vector3d((p * 8).array().round() / 8);
        if (i > 0 && s.chance(1, 8)) p = (*source)[i - 1].getVector3fMap().template cast<double>() + Eigen::Vector3d(0, 0, 0.03125);  // shares its partner
        source->push_back(make_point<P>(s, p));
        // the partner sits near the aligned source point; some sources have none
        if (!s.chance(1, 6)) {
            const Eigen::Vector3d q = T0.block<3, 3>(0, 0) * p + T0.block<3, 1>(0, 3) + (exact && s.boolean() ? 0.0 : 0.1) * Eigen::Vector3d(s.normal(), s.normal(), s.normal());
            target->push_back(make_point<P>(s, q));
        }
    }
    if (s.boolean()) std::reverse(target->points.begin(), target->points.end());
    if (target->empty()) target->push_back(make_point<P>(s, Eigen::Vector3d(1, 2, 3)));
    FixedRegistration<P, Scalar> reg;
    reg.result = TS;
    reg.setInputSource(source);
    reg.setInputTarget(target);
    std::vector<int> registered(n);
    for (int i = 0; i < n; ++i) registered[i] = i;
    if (s.chance(1, 4)) {  // a subset of the source is registered
        registered.clear();
        for (int i = 0; i < n; ++i) if (!s.chance(1, 5)) registered.push_back(i);
        reg.setIndices(pcl::IndicesPtr(new pcl::Indices(registered.begin(), registered.end())));
    }
    double maxd = 1e9;
    if (s.boolean()) { maxd = s.uniform(0.1, 1.5); reg.setMaxCorrespondenceDistance(maxd); }
    pcl::PointCloud<P> aligned;
    reg.align(aligned);

    // exhaustive nearest neighbours; ambiguous cases are not decided here (P12 covers pairing)
    const Eigen::Matrix4d T = TS.template cast<double>();
    std::vector<std::pair<int, int>> pairs;
    for (const int i : registered) {
        const Eigen::Vector3d m = T.block<3, 3>(0, 0) * (*source)[i].getVector3fMap().template cast<double>() + T.block<3, 1>(0, 3);
        int best = -1;
        double bd = 1e300, sd = 1e300;
        for (std::size_t j = 0; j < target->size(); ++j) {
            const double d = (m - (*target)[j].getVector3fMap().template cast<double>()).norm();
            if (d < bd) { sd = bd; bd = d; best = static_cast<int>(j); } else sd = std::min(sd, d);
        }
        if (std::abs(bd - maxd) < 1e-4 || sd - bd < 1e-4) throw pbt::Discard{};
        if (bd <= maxd) pairs.push_back({i, best});
    }
    const double v = std::pow(10.0, s.uniform(-6, 0)), vb = std::pow(10.0, s.uniform(-6, 0));
    int count = -7;
    gen::Matrix6d got;
    s.label(std::string(plane ? "plane " : "point ") + (lin ? "linearised " : "nonlinear ") +
            (form == IID ? "censi iid" : form == RANGE ? "censi range" : form == RANGE_BIAS ? "censi range+bias" : "least squares") + (units ? " units" : ""));
    auto call = [&] {
        if (plane && lin) got = library<P, Scalar, serpent::PointToPlaneIcpLinearisedModel>(reg, form, v, vb, count);
        else if (plane) got = library<P, Scalar, serpent::PointToPlaneIcpNonlinearModel>(reg, form, v, vb, count);
        else if (lin) got = library<P, Scalar, serpent::PointToPointIcpLinearisedModel>(reg, form, v, vb, count);
        else got = library<P, Scalar, serpent::PointToPointIcpNonlinearModel>(reg, form, v, vb, count);
    };
    if (!units && (form == RANGE || form == RANGE_BIAS)) {
        CHECK_THROWS(call());
        return;
    }
    call();
    CHECK(count == static_cast<int>(pairs.size()), "correspondence count ", count, " expected ", pairs.size());
    if (pairs.size() < 6) return;

    const Eigen::AngleAxisd aa(Eigen::Matrix3d(T.block<3, 3>(0, 0)));
    const Eigen::Vector3d r = aa.axis() * aa.angle(), t = T.block<3, 1>(0, 3);
    gen::Matrix6d H = gen::Matrix6d::Zero(), B = gen::Matrix6d::Zero();
    const int K = static_cast<int>(pairs.size());
    Eigen::MatrixXd Z(6, 6 * K);
    Eigen::VectorXd U(6 * K);
    for (int k = 0; k < K; ++k) {
        const auto& sp = (*source)[pairs[k].first];
        const auto& tp = (*target)[pairs[k].second];
        const auto h = icp::half_derivatives(r, t, sp.getVector3fMap().template cast<double>(), tp.getVector3fMap().template cast<double>(),
                tp.getNormalVector3fMap().template cast<double>(), plane ? icp::PLANE : icp::POINT, lin);
        H += h.dx2;
        Z.block<6, 6>(0, 6 * k) = h.dzdx;
        if constexpr (units) U.segment<6>(6 * k) << sp.ux, sp.uy, sp.uz, tp.ux, tp.uy, tp.uz;
    }
    Eigen::MatrixXd Sz = Eigen::MatrixXd::Zero(6 * K, 6 * K);
    switch (form) {
        case IID: Sz = v * Eigen::MatrixXd::Identity(6 * K, 6 * K); break;
        case RANGE:
            for (int k = 0; k < 2 * K; ++k) Sz.block<3, 3>(3 * k, 3 * k) = v * U.segment<3>(3 * k) * U.segment<3>(3 * k).transpose();
            break;
        case RANGE_BIAS:
            Sz = vb * U * U.transpose();
            for (int k = 0; k < 6 * K; ++k) Sz(k, k) += v * U[k] * U[k];
            break;
        default: break;
    }
    Eigen::JacobiSVD<gen::Matrix6d> svd(H);
    const double cond = svd.singularValues()[0] / std::max(1e-300, svd.singularValues()[5]);
    if (!(cond < 1e5)) throw pbt::Discard{};
    s.nontrivial();
    s.note() << "pairs " << K << " of " << n << " v " << v << " cond " << cond;
    const gen::Matrix6d Hi = H.inverse();
    const gen::Matrix6d E = form == LLS ? gen::Matrix6d(v * Hi) : gen::Matrix6d(Hi * (Z * Sz * Z.transpose()) * Hi);
    const double a = r.norm();
    // single-precision inputs and point covariances; cancellation in the closed forms near zero rotation
    const double small = lin ? 0.0 : std::min(2e-4, 1e-14 / std::max(a * a, 1e-30));
    const double tol = E.cwiseAbs().maxCoeff() * (3e-5 + 1e-11 * cond + 10.0 * small * cond) +
            (form == LLS ? 0.0 : 4e-7 * (Hi.cwiseAbs() * (Z.cwiseAbs() * Sz.cwiseAbs() * Z.cwiseAbs().transpose()) * Hi.cwiseAbs()).maxCoeff());
    CHECK(gen::max_diff(got, E) <= tol, "covariance: got ", gen::str(got), " expected ", gen::str(E), " tol ", tol);
    CHECK(gen::max_diff(got, got.transpose()) <= 2 * tol, "not symmetric");
    if (form != LLS || (!lin ? false : true)) {
        Eigen::SelfAdjointEigenSolver<gen::Matrix6d> eig(0.5 * (got + got.transpose()));
        CHECK(eig.eigenvalues().minCoeff() >= -3 * tol, "negative variance ", eig.eigenvalues().minCoeff());
    }
}
}

PROPERTY(assembly, 2500, 80000, "at least six pairs and a Hessian of condition number below 1e5") {
    switch (s.draw(2)) {
        case 0: assemble<PointNormalUnit, float>(s); break;
        case 1: assemble<pcl::PointNormal, float>(s); break;
        default: assemble<PointNormalUnit, double>(s); break;
    }
}

PROPERTY(option_names, 3000, 30000, "a string that names an option, or nearly does") {
    using namespace serpent;
    s.nontrivial();
    const std::vector<std::string> methods{"CONSTANT", "CENSI", "LLS"};
    const std::vector<std::string> models{"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"};
    const std::vector<std::string> points{"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"};
    const std::vector<CovarianceEstimationMethod> me{CovarianceEstimationMethod::CONSTANT, CovarianceEstimationMethod::CENSI, CovarianceEstimationMethod::LLS};
    const std::vector<CovarianceEstimationModel> mo{CovarianceEstimationModel::POINT_TO_POINT_LINEARISED, CovarianceEstimationModel::POINT_TO_POINT_NONLINEAR,
            CovarianceEstimationModel::POINT_TO_PLANE_LINEARISED, CovarianceEstimationModel::POINT_TO_PLANE_NONLINEAR};
    const std::vector<PointCovarianceMethod> po{PointCovarianceMethod::CONSTANT, PointCovarianceMethod::VOXEL_SIZE, PointCovarianceMethod::RANGE, PointCovarianceMethod::RANGE_BIAS};
    std::string w = s.pick(s.draw(2) == 0 ? methods : s.boolean() ? models : points);
    switch (s.draw(5)) {
        case 0: w += "_"; break;
        case 1: w = w.substr(0, w.size() - 1); break;
        case 2: for (auto& c : w) c = static_cast<char>(tolower(c)); break;
        case 3: w[s.draw(w.size() - 1)] ^= 1; break;
        default: break;
    }
    if (s.chance(1, 20)) w = "";
    s.note() << w;
    auto check = [&](const std::vector<std::string>& names, const auto& values, auto parse) {
        for (std::size_t k = 0; k < names.size(); ++k) if (names[k] == w) {
            CHECK(parse(w) == values[k], w);
            CHECK(to_string(values[k]) == w, w);
            return;
        }
        CHECK_THROWS(parse(w), w);
    };
    check(methods, me, [](const std::string& x) { return to_covariance_estimation_method(x); });
    check(models, mo, [](const std::string& x) { return to_covariance_estimation_model(x); });
    check(points, po, [](const std::string& x) { return to_point_covariance_method(x); });
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 4; ++j) {
        const bool e = i > 0 && j > 1;
        CHECK(requires_unit_vectors(me[i], po[j]) == e && requires_unit_vectors(methods[i], points[j]) == e, methods[i], " ", points[j]);
    }
    CHECK_THROWS(requires_unit_vectors("NONE", "RANGE"));
    CHECK_THROWS(requires_unit_vectors("LLS", "NONE"));
}
