// C11: a transformed cloud holds the transformed point of every input point, and everything else unchanged.
// @sources: pointcloud_tools/src/point_types.cpp
// @libs: -lpcl_common
// @flags: -U__SSE2__
// @bounded: {"n":1,"m":0}
// @bounded: {"n":2,"m":3}
#include "vp_eigen.hpp"
#include <cmath>
#include <vector>
#include "pointcloud_tools/point_types.hpp"
#include "pointcloud_tools/pclpointcloud_transform.hpp"
#include "serpent/front_end/lidar/transform_pointcloud.hpp"
using M4 = Eigen::Matrix4f;
static float v(const char* n, long i) { return float(vp_real_i(n, i)); }
// position coordinates may be non-finite where the cloud is not dense
static float pos(const char* n, long i, bool any) { return float(any ? vp_real_any_i(n, i) : vp_real_i(n, i)); }
static void common(float* data, float* data_n, float& curvature, long i, bool any) {
    data[0] = pos("x", i, any); data[1] = pos("y", i, any); data[2] = pos("z", i, any); data[3] = 1.f;
    data_n[0] = v("nx", i); data_n[1] = v("ny", i); data_n[2] = v("nz", i); data_n[3] = 0.f;
    curvature = v("curvature", i);
}
static PointNormalUnit unit_point(long i, bool any) {
    PointNormalUnit p;
    common(p.data, p.data_n, p.curvature, i, any);
    p.data_u[0] = v("ux", i); p.data_u[1] = v("uy", i); p.data_u[2] = v("uz", i); p.data_u[3] = 0.f;
    return p;
}
static PointNormalCovariance covariance_point(long i, bool any) {
    PointNormalCovariance p;
    common(p.data, p.data_n, p.curvature, i, any);
    p.covariance_xx = v("cxx", i); p.covariance_xy = v("cxy", i); p.covariance_xz = v("cxz", i);
    p.covariance_yy = v("cyy", i); p.covariance_yz = v("cyz", i); p.covariance_zz = v("czz", i);
    return p;
}
template <typename P> static P point(long i, bool any);
template <> PointNormalUnit point<PointNormalUnit>(long i, bool any) { return unit_point(i, any); }
template <> PointNormalCovariance point<PointNormalCovariance>(long i, bool any) { return covariance_point(i, any); }
template <typename P>
static void fill(pcl::PointCloud<P>& c, long n, bool dense) {
    for (long i = 0; i < n; ++i) c.points.push_back(point<P>(i, !dense));
    c.width = std::uint32_t(vp_int("width", 0, 1000000));
    c.height = std::uint32_t(vp_int("height", 0, 1000000));
    c.is_dense = dense;
    c.header.seq = std::uint32_t(vp_int("seq", 0, 1000000));
    c.header.stamp = std::uint64_t(vp_int("stamp", 0, 1000000));
    c.header.frame_id = "lidar";
    for (int i = 0; i < 4; ++i) c.sensor_origin_[i] = v("origin", i);
    c.sensor_orientation_ = Eigen::Quaternionf(v("orientation", 0), v("orientation", 1), v("orientation", 2), v("orientation", 3));
}
template <typename P>
static void meta(const pcl::PointCloud<P>& c, bool dense) {
    vp_ieq(c.width, vp_int("width", 0, 1000000), "cloud-size-kept");
    vp_ieq(c.height, vp_int("height", 0, 1000000), "cloud-size-kept");
    vp_ensure(c.is_dense == dense, "density-kept");
    vp_ieq(c.header.seq, vp_int("seq", 0, 1000000), "header-kept");
    vp_ieq(long(c.header.stamp), vp_int("stamp", 0, 1000000), "header-kept");
    vp_ensure(c.header.frame_id == "lidar", "header-kept");
    for (int i = 0; i < 4; ++i) vp_eq(c.sensor_origin_[i], v("origin", i), "sensor-pose-kept");
    vp_eq(c.sensor_orientation_.w(), v("orientation", 0), "sensor-pose-kept");
    vp_eq(c.sensor_orientation_.x(), v("orientation", 1), "sensor-pose-kept");
    vp_eq(c.sensor_orientation_.y(), v("orientation", 2), "sensor-pose-kept");
    vp_eq(c.sensor_orientation_.z(), v("orientation", 3), "sensor-pose-kept");
}
static M4 transform() {
    M4 t = M4::Identity();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) t(i, j) = v("T", 4 * i + j);
    return t;
}
static void position(const float* got, const float* in, const M4& t) {
    for (int i = 0; i < 3; ++i) vp_eqf(got[i], double(t(i, 0)) * in[0] + double(t(i, 1)) * in[1] + double(t(i, 2)) * in[2] + double(t(i, 3)), "transformed-position");
    vp_eq(got[3], 1, "homogeneous-coordinate");
}
static void direction(const float* got, const float* in, const M4& t, const char* label) {
    for (int i = 0; i < 3; ++i) vp_eqf(got[i], double(t(i, 0)) * in[0] + double(t(i, 1)) * in[1] + double(t(i, 2)) * in[2], label);
    vp_eq(got[3], 0, "direction-padding");
}
static void extra(const PointNormalUnit& got, const PointNormalUnit& in, const M4& t) { direction(got.data_u, in.data_u, t, "rotated-unit-vector"); }
static void extra(const PointNormalCovariance& got, const PointNormalCovariance& in, const M4& t) {
    const float c[3][3] = {{in.covariance_xx, in.covariance_xy, in.covariance_xz}, {in.covariance_xy, in.covariance_yy, in.covariance_yz}, {in.covariance_xz, in.covariance_yz, in.covariance_zz}};
    const float g[3][3] = {{got.covariance_xx, got.covariance_xy, got.covariance_xz}, {got.covariance_xy, got.covariance_yy, got.covariance_yz}, {got.covariance_xz, got.covariance_yz, got.covariance_zz}};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double s = 0;
            for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) s += double(t(i, a)) * c[a][b] * t(j, b);
            vp_eqf(g[i][j], s, "rotated-covariance");
        }
}
static void same_extra(const PointNormalUnit& a, const PointNormalUnit& b) { for (int i = 0; i < 4; ++i) vp_eq(a.data_u[i], b.data_u[i], "non-finite-point-unchanged"); }
static void same_extra(const PointNormalCovariance& a, const PointNormalCovariance& b) { for (int i = 0; i < 6; ++i) vp_eq(a.covariance[i], b.covariance[i], "non-finite-point-unchanged"); }
template <typename P>
static void points(const pcl::PointCloud<P>& out, long n, bool dense, const M4& t) {
    vp_ieq(long(out.points.size()), n, "one-point-per-point");
    if (n == 0) return;
    const long i = vp_any_index("i", n);
    const P in = point<P>(i, !dense);
    const P& got = out.points[i];
    if (dense || (vp_finite(in.x) && vp_finite(in.y) && vp_finite(in.z))) {
        position(got.data, in.data, t);
        direction(got.data_n, in.data_n, t, "rotated-normal");
        extra(got, in, t);
    } else {
        vp_cover("non-finite point");
        for (int k = 0; k < 3; ++k) { vp_same(got.data[k], in.data[k], "non-finite-point-unchanged"); vp_eq(got.data_n[k], in.data_n[k], "non-finite-point-unchanged"); }
        same_extra(got, in);
    }
    vp_eq(got.curvature, in.curvature, "curvature-kept");
}
static void apply(const pcl::PointCloud<PointNormalUnit>& a, pcl::PointCloud<PointNormalUnit>& b, const M4& t) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, t); }
static void apply(const pcl::PointCloud<PointNormalCovariance>& a, pcl::PointCloud<PointNormalCovariance>& b, const M4& t) { pct::transform_pointcloud_with_normals_and_covariances(a, b, t); }
template <typename P>
static void to_other(bool dense) {
    const long n = vp_len("n", 0, 6), m = vp_len("m", 0, 6);
    pcl::PointCloud<P> in, out;
    fill(in, n, dense);
    for (long i = 0; i < m; ++i) out.points.push_back(P());   // left over
    const M4 t = transform();
    apply(in, out, t);
    meta(out, dense);
    points(out, n, dense, t);
}
template <typename P>
static void in_place(bool dense) {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<P> c;
    fill(c, n, dense);
    const M4 t = transform();
    apply(c, c, t);
    meta(c, dense);
    points(c, n, dense, t);
}
CONTRACT(units_dense) { to_other<PointNormalUnit>(true); }
CONTRACT(units_sparse) { to_other<PointNormalUnit>(false); }
CONTRACT(units_in_place) { in_place<PointNormalUnit>(true); }
CONTRACT(units_in_place_sparse) { in_place<PointNormalUnit>(false); }
CONTRACT(covariances_dense) { to_other<PointNormalCovariance>(true); }
CONTRACT(covariances_sparse) { to_other<PointNormalCovariance>(false); }
CONTRACT(covariances_in_place) { in_place<PointNormalCovariance>(true); }
CONTRACT(covariances_in_place_sparse) { in_place<PointNormalCovariance>(false); }
// ---------------------------------------------------------------- the other ways of giving the transform
enum Form { MATRIX_DOUBLE, ISOMETRY_FLOAT, ISOMETRY_DOUBLE, AFFINE_FLOAT, MATRIX_FLOAT };
template <typename F>
static void given_as(Form form, const M4& t, F f) {
    if (form == MATRIX_DOUBLE) { const Eigen::Matrix4d d = t.cast<double>(); f(d); }
    else if (form == MATRIX_FLOAT) f(t);
    else if (form == ISOMETRY_FLOAT) { Eigen::Isometry3f d; d.matrix() = t; f(d); }
    else if (form == ISOMETRY_DOUBLE) { Eigen::Isometry3d d; d.matrix() = t.cast<double>(); f(d); }
    else { Eigen::Affine3f d; d.matrix() = t; f(d); }
}
template <typename P, typename F>
static void forms(F f) {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<P> in, out;
    fill(in, n, true);
    const M4 t = transform();
    given_as(Form(vp_case("form", 0, 4)), t, [&](const auto& x) { f(in, out, x); });
    meta(out, true);
    points(out, n, true, t);
}
CONTRACT(units_forms) {
    forms<PointNormalUnit>([](const auto& a, auto& b, const auto& t) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, t); });
}
CONTRACT(covariances_forms) {
    forms<PointNormalCovariance>([](const auto& a, auto& b, const auto& t) { pct::transform_pointcloud_with_normals_and_covariances(a, b, t); });
}
CONTRACT(serpent_units) {
    forms<PointNormalUnit>([](const auto& a, auto& b, const auto& t) { serpent::transform_pointcloud(a, b, t); });
}
CONTRACT(serpent_covariances) {
    forms<PointNormalCovariance>([](const auto& a, auto& b, const auto& t) { serpent::transform_pointcloud(a, b, t); });
}
// any other point with a normal
CONTRACT(serpent_normals) {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<pcl::PointNormal> in, out;
    for (long i = 0; i < n; ++i) {
        pcl::PointNormal p;
        common(p.data, p.data_n, p.curvature, i, false);
        in.points.push_back(p);
    }
    in.is_dense = true;
    in.width = std::uint32_t(n);
    in.height = 1;
    const M4 t = transform();
    given_as(Form(vp_case("form", 0, 4)), t, [&](const auto& x) { serpent::transform_pointcloud(in, out, x); });
    vp_ieq(long(out.points.size()), n, "one-point-per-point");
    if (n == 0) return;
    const long i = vp_any_index("i", n);
    position(out.points[i].data, in.points[i].data, t);
    direction(out.points[i].data_n, in.points[i].data_n, t, "rotated-normal");
    vp_eq(out.points[i].curvature, in.points[i].curvature, "curvature-kept");
}
// without copying the other fields, what is transformed is transformed all the same
CONTRACT(units_only_transformed_fields) {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<PointNormalUnit> in, out;
    fill(in, n, true);
    const M4 t = transform();
    pct::transform_pointcloud_with_normals_and_unit_vectors(in, out, t, false);
    meta(out, true);
    vp_ieq(long(out.points.size()), n, "one-point-per-point");
    if (n == 0) return;
    const long i = vp_any_index("i", n);
    position(out.points[i].data, in.points[i].data, t);
    direction(out.points[i].data_n, in.points[i].data_n, t, "rotated-normal");
    extra(out.points[i], in.points[i], t);
}
CONTRACT(covariances_only_transformed_fields) {
    const long n = vp_len("n", 0, 6);
    pcl::PointCloud<PointNormalCovariance> in, out;
    fill(in, n, true);
    const M4 t = transform();
    pct::transform_pointcloud_with_normals_and_covariances(in, out, t, false);
    meta(out, true);
    vp_ieq(long(out.points.size()), n, "one-point-per-point");
    if (n == 0) return;
    const long i = vp_any_index("i", n);
    position(out.points[i].data, in.points[i].data, t);
    direction(out.points[i].data_n, in.points[i].data_n, t, "rotated-normal");
    extra(out.points[i], in.points[i], t);
}
