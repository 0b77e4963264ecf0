// C12: cloud utilities look at every point: normals that are not unit are counted, unit vectors become columns, times are scaled.
// @sources: pointcloud_tools/src/point_types.cpp
// @libs: -lpcl_common
// @flags: -U__SSE2__
// @bounded: {"n":0}
// @bounded: {"n":3}
#include "vp_eigen.hpp"
#include <cmath>
#include <vector>
#include "pointcloud_tools/point_types.hpp"
#include "pointcloud_tools/pclpointcloud_utilities.hpp"
static float v(const char* n, long i) { return float(vp_real_i(n, i)); }
template <typename P>
static pcl::PointCloud<P> normals_cloud(long n) {
    pcl::PointCloud<P> c;
    for (long i = 0; i < n; ++i) {
        P p;
        p.normal_x = v("nx", i); p.normal_y = v("ny", i); p.normal_z = v("nz", i);
        c.points.push_back(p);
    }
    return c;
}
template <typename P>
static void count(double threshold) {
    const long n = vp_len("n", 0, 6);
    const pcl::PointCloud<P> c = normals_cloud<P>(n);
    const int got = pct::check_normals(c, float(threshold));
    long expected = 0;
    for (long i = 0; i < n; ++i) {
        const double l = std::sqrt(double(v("nx", i)) * v("nx", i) + double(v("ny", i)) * v("ny", i) + double(v("nz", i)) * v("nz", i));
        if (l - 1.0 > threshold || 1.0 - l > threshold) ++expected;
    }
    vp_ieq(got, expected, "normals-off-by-more-than-the-threshold-are-counted");
    vp_ensure(got >= 0 && got <= n, "count-within-cloud-size");
}
CONTRACT(count_units) { count<PointNormalUnit>(vp_real("threshold")); }
CONTRACT(count_covariances) { count<PointNormalCovariance>(vp_real("threshold")); }
CONTRACT(count_default) {
    const long n = vp_len("n", 0, 6);
    const auto c = normals_cloud<PointNormalUnit>(n);
    vp_ieq(pct::check_normals(c), pct::check_normals(c, float(1.0e-6)), "default-threshold");
}
template <typename P>
static void unit_vectors() {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<P> c;
    for (long i = 0; i < n; ++i) {
        P p;
        p.ux = v("ux", i); p.uy = v("uy", i); p.uz = v("uz", i);
        c.points.push_back(p);
    }
    const Eigen::Matrix<float, 3, Eigen::Dynamic> m = pct::extract_unit_vectors(c);
    vp_ieq(m.rows(), 3, "three-rows");
    vp_ieq(m.cols(), n, "one-column-per-point");
    if (n > 0) {
        const long i = vp_any_index("i", n);
        vp_eq(m(0, i), v("ux", i), "column-is-the-unit-vector");
        vp_eq(m(1, i), v("uy", i), "column-is-the-unit-vector");
        vp_eq(m(2, i), v("uz", i), "column-is-the-unit-vector");
    }
}
CONTRACT(unit_vectors_units) { unit_vectors<PointUnit>(); }
CONTRACT(unit_vectors_normals) { unit_vectors<PointNormalUnit>(); }
struct TimedPoint { float x, y, z; double t; int ring; };
CONTRACT(nanoseconds) {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<TimedPoint> c;
    for (long i = 0; i < n; ++i) {
        TimedPoint p{v("x", i), v("y", i), v("z", i), vp_real_i("t", i), int(vp_int_i("ring", i, 0, 127))};
        c.points.push_back(p);
    }
    c.width = std::uint32_t(vp_int("width", 0, 1000000));
    c.height = std::uint32_t(vp_int("height", 0, 1000000));
    pct::convert_ns_to_s(c);
    vp_ieq(long(c.points.size()), n, "number-of-points-kept");
    vp_ieq(c.width, vp_int("width", 0, 1000000), "cloud-size-kept");
    vp_ieq(c.height, vp_int("height", 0, 1000000), "cloud-size-kept");
    if (n > 0) {
        const long i = vp_any_index("i", n);
        const TimedPoint& p = c.points[i];
        vp_eq(p.t, vp_real_i("t", i) / 1000000000.0, "time-in-seconds");
        vp_eq(p.x, v("x", i), "other-fields-kept"); vp_eq(p.y, v("y", i), "other-fields-kept"); vp_eq(p.z, v("z", i), "other-fields-kept");
        vp_ieq(p.ring, vp_int_i("ring", i, 0, 127), "other-fields-kept");
    }
}
