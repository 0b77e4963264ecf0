// C15: stereo projection and backprojection are inverse, and refuse points that cannot be projected / triangulated.
#include "vp_eigen.hpp"
#include <stdexcept>
#include "serpent/front_end/stereo/stereo_equations.hpp"
template <typename S> struct cmp;
template <> struct cmp<double> { static void eq(double a, double b, const char* l) { vp_eq(a, b, l); } };
template <> struct cmp<float> { static void eq(double a, double b, const char* l) { vp_eqf(a, b, l); } };
template <typename S>
static Eigen::Matrix<S, 3, 3> camera() {
    // only the focal lengths and the principal point may be used: the rest is arbitrary
    Eigen::Matrix<S, 3, 3> K = vp_matrix<S, 3, 3>("k");
#ifdef VP_SYMBOLIC
    vp_assume(K(0, 0) != S(0) && K(1, 1) != S(0));
#else
    vp_assume(std::abs(K(0, 0)) > 0.1 && std::abs(K(1, 1)) > 0.1);
#endif
    return K;
}
template <typename S>
static void project_spec() {
    using V = Eigen::Matrix<S, 3, 1>;
    const Eigen::Matrix<S, 3, 3> K = camera<S>();
    const S b = S(vp_real("b"));
    const V p = vp_matrix<S, 3, 1>("p");
    bool threw = false;
    V c = V::Zero();
    try { c = serpent::stereo_project<S>(p, K, b); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw == (p[2] <= S(0)), "refused-iff-on-or-behind-the-image-plane");
    if (threw) { vp_cover("refused"); return; }
    vp_assume(p[2] > S(1e-3));
    cmp<S>::eq(c[0], K(0, 0) * p[0] / p[2] + K(0, 2), "left-coordinate");
    cmp<S>::eq(c[1], K(0, 0) * (p[0] - b) / p[2] + K(0, 2), "right-coordinate");
    cmp<S>::eq(c[2], K(1, 1) * p[1] / p[2] + K(1, 2), "vertical-coordinate");
}
template <typename S>
static void backproject_spec() {
    using V = Eigen::Matrix<S, 3, 1>;
    const Eigen::Matrix<S, 3, 3> K = camera<S>();
    const S b = S(vp_real("b"));
    const V c = vp_matrix<S, 3, 1>("c");
    bool threw = false;
    V p = V::Zero();
    try { p = serpent::stereo_backproject<S>(c, K, b); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw == (c[0] == c[1]), "refused-iff-horizontal-coordinates-are-equal");
    if (threw) { vp_cover("infinitely-far"); return; }
    const S d = c[0] - c[1];
    cmp<S>::eq(p[2] * d, K(0, 0) * b, "depth-is-focal-length-times-baseline-over-disparity");
    cmp<S>::eq(p[0] * d, b * (c[0] - K(0, 2)), "horizontal-position");
    cmp<S>::eq(p[1] * K(1, 1) * d, b * K(0, 0) * (c[2] - K(1, 2)), "vertical-position");
}
CONTRACT(project_double) { project_spec<double>(); }
CONTRACT(project_float) { project_spec<float>(); }
CONTRACT(backproject_double) { backproject_spec<double>(); }
CONTRACT(backproject_float) { backproject_spec<float>(); }
CONTRACT(project_then_backproject) {
    const Eigen::Matrix3d K = camera<double>();
    const double b = vp_real("b");
    const Eigen::Vector3d p = vp_matrix<double, 3, 1>("p");
    vp_assume(b > 0.01 && p[2] > 0.01);
    const Eigen::Vector3d q = serpent::stereo_backproject<double>(serpent::stereo_project<double>(p, K, b), K, b);
    vp_mat_eq(q, p, "backprojecting-a-projected-point-recovers-it");
}
CONTRACT(backproject_then_project) {
    const Eigen::Matrix3d K = camera<double>();
    const double b = vp_real("b");
    const Eigen::Vector3d c = vp_matrix<double, 3, 1>("c");
    vp_assume(b > 0.01 && K(0, 0) > 0.0 && c[0] - c[1] > 0.01);
    const Eigen::Vector3d p = serpent::stereo_backproject<double>(c, K, b);
    vp_ensure(p[2] > 0.0, "positive-disparity-lies-in-front-of-the-camera");
    vp_mat_eq(serpent::stereo_project<double>(p, K, b), c, "projecting-a-backprojected-feature-recovers-it");
}
