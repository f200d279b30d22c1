// P13: derivatives of the registration costs against exact automatic differentiation.
#include <pcl/point_types.h>
#include <serpent/front_end/lidar/registration_covariance.hpp>

#include "icp_oracle.hpp"

namespace {
template<typename P> Eigen::Vector3d pos(const P& p) { return p.getVector3fMap().template cast<double>(); }

template<typename P>
void derivatives(pbt::Src& s) {
    const bool plane = s.boolean(), lin = s.boolean(), from_matrix = s.boolean();
    Eigen::Vector3d r = gen::rotvec(s);
    if (!from_matrix && s.chance(1, 8)) r *= s.uniform(1.0, 1.9);  // rotation vectors longer than pi are legal here
    const Eigen::Vector3d t = gen::vec3(s, 15.0);
    P sp, tp;
    const double mag = s.boolean() ? 1.0 : 15.0;
    sp.getVector3fMap() = gen::vec3(s, mag).cast<float>();
    const Eigen::Vector3d target = s.boolean() ? Eigen::Vector3d(gen::rodrigues(r) * pos(sp) + t + 0.1 * gen::vec3(s, 1.0)) : gen::vec3(s, mag);
    tp.getVector3fMap() = target.cast<float>();
    Eigen::Vector3d nn = gen::vec3(s, 1.0);
    if (nn.norm() < 1e-6) nn = Eigen::Vector3d::UnitZ();
    if (!s.chance(1, 6)) nn.normalize();
    tp.getNormalVector3fMap() = nn.cast<float>();
    sp.getNormalVector3fMap() = gen::vec3(s, 1.0).cast<float>();
    const Eigen::Vector3d p = pos(sp), q = pos(tp), n = tp.getNormalVector3fMap().template cast<double>();

    typedef eigen_ext::PrecomputedTransformComponents<double> TF;
    const TF tf = from_matrix ? TF(Eigen::Matrix4d(gen::make_iso(gen::rodrigues(r), t).matrix())) : TF(r, t);
    // the parameters the library derives from the matrix are those the derivative is taken at
    const Eigen::Vector3d ru = tf.r();
    if (from_matrix) CHECK(gen::max_diff(gen::rodrigues(ru), gen::rodrigues(r)) < 1e-7, "rotation vector of the transform");
    s.label(std::string(plane ? "plane " : "point ") + (lin ? "linearised" : "nonlinear"));
    s.note() << "r " << gen::str(ru) << " t " << gen::str(t) << " p " << gen::str(p) << " q " << gen::str(q) << " n " << gen::str(n);
    s.nontrivial(p.norm() > 0 && r.norm() > 0);

    gen::Matrix6d dx2, dzdx, h2, z2, h3;
    auto run = [&](auto model) {
        typedef decltype(model) M;
        if constexpr (std::is_same_v<M, serpent::PointToPlaneIcpNonlinearModel<P, P>> || std::is_same_v<M, serpent::PointToPlaneIcpLinearisedModel<P, P>>) {
            dx2 = M::compute_half_d2F_dx2(tf, p, q, n);
            dzdx = M::compute_half_d2F_dzdx(tf, p, q, n);
        } else {
            dx2 = M::compute_half_d2F_dx2(tf, p, q);
            dzdx = M::compute_half_d2F_dzdx(tf, p, q);
        }
        h2.setConstant(1e300); z2.setConstant(1e300); h3.setConstant(1e300);
        CHECK(M::process_correspondence(sp, tp, tf, h2, z2), "process");
        CHECK(M::process_correspondence(sp, tp, tf, h3), "process");
    };
    if (plane && lin) run(serpent::PointToPlaneIcpLinearisedModel<P, P>());
    else if (plane) run(serpent::PointToPlaneIcpNonlinearModel<P, P>());
    else if (lin) run(serpent::PointToPointIcpLinearisedModel<P, P>());
    else run(serpent::PointToPointIcpNonlinearModel<P, P>());
    const auto ref = icp::half_derivatives(ru, t, p, q, n, plane ? icp::PLANE : icp::POINT, lin);
    const double a = ru.norm();
    const double sc = std::pow(1.0 + p.norm() + q.norm() + t.norm(), 2.0) * (plane ? std::max(1.0, n.squaredNorm()) : 1.0);
    // cancellation in the closed forms grows as the rotation vanishes
    const double tol = sc * (lin ? 1e-12 : 1e-11 + std::min(2e-4, 1e-14 / std::max(a * a, 1e-30)));
    CHECK(gen::max_diff(dx2, ref.dx2) <= tol, "pose Hessian: got ", gen::str(dx2), " expected ", gen::str(ref.dx2), " tol ", tol);
    CHECK(gen::max_diff(dzdx, ref.dzdx) <= tol, "mixed derivative: got ", gen::str(dzdx), " expected ", gen::str(ref.dzdx), " tol ", tol);
    CHECK(gen::max_diff(dx2, dx2.transpose()) <= 2 * tol, "Hessian not symmetric");
    CHECK(gen::max_diff(h2, dx2) <= tol && gen::max_diff(z2, dzdx) <= tol && gen::max_diff(h3, dx2) <= tol, "per-correspondence results");
}
}

PROPERTY(cost_derivatives, 40000, 1500000, "non-zero source point and rotation") {
    if (s.draw(3) == 0) derivatives<PointNormalUnit>(s);
    else derivatives<pcl::PointNormal>(s);
}
