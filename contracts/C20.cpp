// C20: range-noise covariances use the covariance of the measured points along their rays, for every model.
// @sources: pointcloud_tools/src/point_types.cpp
// @libs: -lpcl_common -lpcl_search -lpcl_kdtree -llz4 -lflann
// @flags: -U__SSE2__ -DPCL_NO_PRECOMPILE -DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=1000000000
// @bounded: {"n":1,"m":1,"c":1}
// @bounded: {"n":2,"m":1,"c":2}
// @boundedonly: range range_bias
#include "vp_model.hpp"
#include <vector>
static std::vector<double> rays(const Scene& s) {   // the measured points stacked: source point, target point, per correspondence
    std::vector<double> u;
    for (long i = 0; i < s.c; ++i) {
        const P& a = s.source->points[vp_int_i("query", i, 0, s.n - 1)];
        const P& b = s.target->points[vp_int_i("match", i, 0, s.m - 1)];
        for (double x : {double(a.ux), double(a.uy), double(a.uz), double(b.ux), double(b.uy), double(b.uz)}) u.push_back(x);
    }
    return u;
}
// H^-1 (sum over pairs of measurement coordinates of d_k S(k, l) d_l^T) H^-1
template <typename S>
static M6 propagated(const Scene& s, const S& covariance) {
    std::vector<M6> d(s.c);
    for (long i = 0; i < s.c; ++i) AnyModel::measurement(s.sx(i), s.tx(i), s.w, d[i]);
    const std::vector<double> u = rays(s);
    const long z = 6 * s.c;
    M6 middle = M6::Zero();
    for (long k = 0; k < z; ++k)
        for (long l = 0; l < z; ++l) {
            const double c = covariance(u, k, l);
            for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) middle(a, b) += d[k / 6](a, k % 6) * c * d[l / 6](b, l % 6);
        }
    const M6 inverse = s.hessian().inverse();
    M6 want;
    for (int a = 0; a < 6; ++a)
        for (int b = 0; b < 6; ++b) {
            double t = 0;
            for (int k = 0; k < 6; ++k) for (int l = 0; l < 6; ++l) t += inverse(a, k) * middle(k, l) * inverse(l, b);
            want(a, b) = t;
        }
    return want;
}
CONTRACT(range) {
    Scene s;
    int count = -1;
    const double variance = vp_real_near("variance", 0, 2);
    const M6 got = serpent::censi_range_covariance<AnyModel, float>(s.r, variance, count);
    vp_ieq(count, s.c, "correspondence-count");
    same_single(got, propagated(s, [&](const std::vector<double>& u, long k, long l) { return k / 3 == l / 3 ? variance * u[k] * u[l] : 0.0; }), "range-covariance");
}
CONTRACT(range_bias) {
    Scene s;
    int count = -1;
    const double variance = vp_real_near("variance", 0, 2), bias = vp_real_near("bias", 0, 2);
    const M6 got = serpent::censi_range_bias_covariance<AnyModel, float>(s.r, variance, bias, count);
    vp_ieq(count, s.c, "correspondence-count");
    same_single(got, propagated(s, [&](const std::vector<double>& u, long k, long l) { return (k == l ? variance + bias : bias) * u[k] * u[l]; }), "range-bias-covariance");
}
// the measured rays are only known for points that store their unit vector
struct OtherModel { using PointSource = pcl::PointNormal; using PointTarget = pcl::PointNormal; };
CONTRACT(points_without_rays) {
    VpRegistration<pcl::PointNormal> r;
    int count = 0;
    bool refused = false;
    try {
        serpent::censi_range_covariance<OtherModel, float>(r, vp_real("variance"), count);
    } catch (const std::runtime_error&) {
        refused = true;
    }
    vp_ensure(refused, "range-covariance-refused");
    refused = false;
    try {
        serpent::censi_range_bias_covariance<OtherModel, float>(r, vp_real("variance"), vp_real("bias"), count);
    } catch (const std::runtime_error&) {
        refused = true;
    }
    vp_ensure(refused, "range-bias-covariance-refused");
}
