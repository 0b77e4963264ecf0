// A registration with arbitrary correspondences and an arbitrary error model, for the covariance estimators.
#pragma once
#include "vp_registration.hpp"
#include <functional>
#include <Eigen/LU>
using M6 = Eigen::Matrix<double, 6, 6>;
// Eigen's inverse of a 6x6 matrix: an arbitrary function of the matrix, symmetric where the matrix is (Eigen itself in native runs)
namespace Eigen { namespace internal {
template <>
struct compute_inverse<M6, M6, 6> {
    static void run(const M6& m, M6& r) {
        if (vp_native()) { r = m.partialPivLu().inverse(); return; }
        for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) vp_eq(m(i, j), m(j, i), "hessian-symmetric");
        vp_map("inverse", m.data(), 36, r.data(), 36);
        for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) r(i, j) = r(j, i);
    }
};
} }
#include "pointcloud_tools/point_types.hpp"
#include "pointcloud_tools/registration_utilities.hpp"
using P = PointNormalUnit;
using Cloud = pcl::PointCloud<P>;
// The contract of the correspondences (C10): some list of pairs of existing points.
namespace pct {
template <>
pcl::CorrespondencesPtr compute_registration_correspondences<P, P, float>(pcl::Registration<P, P, float>& r, const bool) {
    pcl::CorrespondencesPtr c = std::make_shared<pcl::Correspondences>();
    for (long i = 0; i < vp_len("c", 1, 5); ++i)
        c->emplace_back(int(vp_int_i("query", i, 0, vp_len("n", 1, 4) - 1)), int(vp_int_i("match", i, 0, vp_len("m", 1, 4) - 1)), float(vp_real_i("dist", i)));
    return c;
}
}
#include "serpent/front_end/lidar/registration_covariance.hpp"
static float v(const char* n, long i) { return float(vp_real_near_i(n, i, -3, 3)); }
static Cloud::Ptr cloud(const char* x, const char* ux, const char* uy, const char* uz, long n) {
    Cloud::Ptr c = std::make_shared<Cloud>();
    for (long i = 0; i < n; ++i) {
        P p;
        p.x = v(x, i); p.ux = v(ux, i); p.uy = v(uy, i); p.uz = v(uz, i);
        c->points.push_back(p);
    }
    return c;
}
// any model: the second derivatives are arbitrary functions of the two points and the transform, the pose Hessian symmetric
struct AnyModel {
    using PointSource = P;
    using PointTarget = P;
    static double entry(const char* name, int k, double s, double t, double w) { return vp_fn4(name, k, s, t, w); }
    static void pose(double s, double t, double w, M6& h) {
        for (int r = 0; r < 6; ++r)
            for (int c = 0; c <= r; ++c) {
                const double e = entry("hessian", 6 * r + c, s, t, w);
                h(r, c) = h(c, r) = vp_native() ? (r == c ? 8.0 : 0.0) + 0.2 * e : e;   // native runs: well conditioned
            }
    }
    static void measurement(double s, double t, double w, M6& d) {
        for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) d(r, c) = entry("cross", 6 * r + c, s, t, w);
    }
    static bool process_correspondence(const P& s, const P& t, const eigen_ext::PrecomputedTransformComponents<double>& tf, M6& h, M6& d) {
        pose(s.x, t.x, tf.T()(0, 3), h);
        measurement(s.x, t.x, tf.T()(0, 3), d);
        return true;
    }
    static bool process_correspondence(const P& s, const P& t, const eigen_ext::PrecomputedTransformComponents<double>& tf, M6& h) {
        pose(s.x, t.x, tf.T()(0, 3), h);
        return true;
    }
};
struct Scene {
    long n, m, c;
    Cloud::Ptr source, target;
    VpRegistration<P> r;
    float w;
    Scene() : n(vp_len("n", 1, 4)), m(vp_len("m", 1, 4)), c(vp_len("c", 1, 5)), source(cloud("sx", "sux", "suy", "suz", n)), target(cloud("tx", "tux", "tuy", "tuz", m)), w(v("shift", 0)) {
        vp_assume(c < 100000000);
        r.setInputSource(source);
        r.setInputTarget(target);
        Eigen::Matrix4f t = Eigen::Matrix4f::Identity();
        t(0, 3) = w; t(1, 3) = v("shift", 1); t(2, 3) = v("shift", 2);
        r.set_final(t);
    }
    float sx(long i) const { return source->points[vp_int_i("query", i, 0, n - 1)].x; }
    float tx(long i) const { return target->points[vp_int_i("match", i, 0, m - 1)].x; }
    M6 hessian() const {
        M6 h = M6::Zero();
        for (long i = 0; i < c; ++i) {
            M6 e;
            AnyModel::pose(sx(i), tx(i), w, e);
            h += e;
        }
        return h;
    }
};
static void same_single(const M6& got, const M6& want, const char* label) {   // computed in single precision natively
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) vp_eqf(got(i, j), want(i, j), label);
}
static void same(const M6& got, const M6& want, const char* label) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) vp_eq(got(i, j), want(i, j), label);
}
