// C13: point types: every field keeps its value through construction, copying and matrix / pose accessors.
// @sources: pointcloud_tools/src/point_types.cpp
#include "vp_eigen.hpp"
#include "pointcloud_tools/point_types.hpp"
#include <cmath>
#include <new>
#include <cstring>
static float f(const char* n, int i) { return float(vp_real_i(n, i)); }
// raw memory filled with arbitrary values: a constructor must not leave any field at its previous value
template <typename P, typename... A>
struct At {
    alignas(P) unsigned char mem[sizeof(P)];
    P* p;
    At(const A&... a) {
        float* raw = reinterpret_cast<float*>(mem);
        for (unsigned i = 0; i < sizeof(P) / 4; ++i) raw[i] = f("old", i);
        p = new (mem) P(a...);
    }
};
CONTRACT(default_points) {
    At<PointUnit> a; At<PointNormalUnit> b; At<PointCovariance> c; At<PointNormalCovariance> d; At<PointAngleAxis> e;
    const PointUnit& pu = *a.p; const PointNormalUnit& pn = *b.p; const PointCovariance& pc = *c.p;
    const PointNormalCovariance& pnc = *d.p; const PointAngleAxis& pa = *e.p;
    for (int i = 0; i < 3; ++i) {
        vp_eq(pu.data[i], 0, "default-position"); vp_eq(pn.data[i], 0, "default-position"); vp_eq(pc.data[i], 0, "default-position");
        vp_eq(pnc.data[i], 0, "default-position"); vp_eq(pa.data[i], 0, "default-position");
        vp_eq(pu.data_u[i], 0, "default-unit-vector"); vp_eq(pn.data_u[i], 0, "default-unit-vector");
        vp_eq(pn.data_n[i], 0, "default-normal"); vp_eq(pnc.data_n[i], 0, "default-normal"); vp_eq(pa.data_r[i], 0, "default-rotation-vector");
    }
    for (int i = 0; i < 6; ++i) { vp_eq(pc.covariance[i], 0, "default-covariance"); vp_eq(pnc.covariance[i], 0, "default-covariance"); }
    vp_eq(pn.curvature, 0, "default-curvature"); vp_eq(pnc.curvature, 0, "default-curvature");
    vp_eq(pu.data[3], 1, "homogeneous-coordinate"); vp_eq(pn.data[3], 1, "homogeneous-coordinate"); vp_eq(pc.data[3], 1, "homogeneous-coordinate");
    vp_eq(pnc.data[3], 1, "homogeneous-coordinate"); vp_eq(pa.data[3], 1, "homogeneous-coordinate");
    vp_eq(pu.data_u[3], 0, "direction-padding"); vp_eq(pn.data_u[3], 0, "direction-padding"); vp_eq(pn.data_n[3], 0, "direction-padding");
    vp_eq(pnc.data_n[3], 0, "direction-padding"); vp_eq(pa.data_r[3], 0, "direction-padding");
}
CONTRACT(copied_points) {
    _PointUnit u; _PointNormalUnit n; _PointCovariance c; _PointNormalCovariance nc; _PointAngleAxis a;
    for (int i = 0; i < 4; ++i) {
        u.data[i] = n.data[i] = c.data[i] = nc.data[i] = a.data[i] = f("x", i);
        n.data_n[i] = nc.data_n[i] = f("n", i);
        u.data_u[i] = n.data_u[i] = f("u", i);
        a.data_r[i] = f("r", i);
    }
    for (int i = 0; i < 6; ++i) c.covariance[i] = nc.covariance[i] = f("c", i);
    n.curvature = nc.curvature = float(vp_real("k"));
    At<PointUnit, _PointUnit> A(u); At<PointNormalUnit, _PointNormalUnit> B(n); At<PointCovariance, _PointCovariance> C(c);
    At<PointNormalCovariance, _PointNormalCovariance> D(nc); At<PointAngleAxis, _PointAngleAxis> E(a);
    const PointUnit& pu = *A.p; const PointNormalUnit& pn = *B.p; const PointCovariance& pc = *C.p;
    const PointNormalCovariance& pnc = *D.p; const PointAngleAxis& pa = *E.p;
    for (int i = 0; i < 3; ++i) {
        vp_eq(pu.data[i], f("x", i), "copied-position"); vp_eq(pn.data[i], f("x", i), "copied-position"); vp_eq(pc.data[i], f("x", i), "copied-position");
        vp_eq(pnc.data[i], f("x", i), "copied-position"); vp_eq(pa.data[i], f("x", i), "copied-position");
        vp_eq(pu.data_u[i], f("u", i), "copied-unit-vector"); vp_eq(pn.data_u[i], f("u", i), "copied-unit-vector");
        vp_eq(pn.data_n[i], f("n", i), "copied-normal"); vp_eq(pnc.data_n[i], f("n", i), "copied-normal");
        vp_eq(pa.data_r[i], f("r", i), "copied-rotation-vector");
    }
    for (int i = 0; i < 6; ++i) { vp_eq(pc.covariance[i], f("c", i), "copied-covariance"); vp_eq(pnc.covariance[i], f("c", i), "copied-covariance"); }
    vp_eq(pn.curvature, float(vp_real("k")), "copied-curvature"); vp_eq(pnc.curvature, float(vp_real("k")), "copied-curvature");
    vp_eq(pu.data[3], 1, "homogeneous-coordinate"); vp_eq(pn.data[3], 1, "homogeneous-coordinate"); vp_eq(pc.data[3], 1, "homogeneous-coordinate");
    vp_eq(pnc.data[3], 1, "homogeneous-coordinate"); vp_eq(pa.data[3], 1, "homogeneous-coordinate");
    vp_eq(pu.data_u[3], 0, "direction-padding"); vp_eq(pn.data_u[3], 0, "direction-padding"); vp_eq(pn.data_n[3], 0, "direction-padding");
    vp_eq(pnc.data_n[3], 0, "direction-padding"); vp_eq(pa.data_r[3], 0, "direction-padding");
}
// named members and arrays are the same storage, and the vector maps see it
CONTRACT(views) {
    PointNormalUnit p; PointCovariance c; PointAngleAxis a;
    p.x = f("x", 0); p.y = f("x", 1); p.z = f("x", 2); p.ux = f("u", 0); p.uy = f("u", 1); p.uz = f("u", 2);
    p.normal_x = f("n", 0); p.normal_y = f("n", 1); p.normal_z = f("n", 2);
    a.rx = f("r", 0); a.ry = f("r", 1); a.rz = f("r", 2);
    c.covariance_xx = f("c", 0); c.covariance_xy = f("c", 1); c.covariance_xz = f("c", 2);
    c.covariance_yy = f("c", 3); c.covariance_yz = f("c", 4); c.covariance_zz = f("c", 5);
    const PointNormalUnit& q = p;
    for (int i = 0; i < 3; ++i) {
        vp_eq(p.getVector3fMap()(i), f("x", i), "position-view"); vp_eq(p.getUnitVector3fMap()(i), f("u", i), "unit-vector-view");
        vp_eq(q.getUnitVector3fMap()(i), f("u", i), "unit-vector-view"); vp_eq(q.getUnitVector4fMap()(i), f("u", i), "unit-vector-view");
        vp_eq(p.getUnitVector4fMap()(i), f("u", i), "unit-vector-view"); vp_eq(q.u[i], f("u", i), "unit-vector-view");
        vp_eq(p.getNormalVector3fMap()(i), f("n", i), "normal-view"); vp_eq(a.data_r[i], f("r", i), "rotation-vector-view");
        vp_eq(a.r[i], f("r", i), "rotation-vector-view");
    }
    const Eigen::Matrix3f o = q.get_unit_outer_product();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eqf(o(i, j), f("u", i) * f("u", j), "unit-outer-product");
    const PointCovariance& cc = c;
    for (int i = 0; i < 6; ++i) { vp_eq(c.getCovarianceVector6fMap()(i), f("c", i), "covariance-view"); vp_eq(cc.getCovarianceVector6fMap()(i), f("c", i), "covariance-view"); }
}
template <typename P>
static void covariance_spec() {
    P p;
    p.covariance_xx = f("c", 0); p.covariance_xy = f("c", 1); p.covariance_xz = f("c", 2);
    p.covariance_yy = f("c", 3); p.covariance_yz = f("c", 4); p.covariance_zz = f("c", 5);
    const Eigen::Matrix3f m = p.getCovarianceMatrix();
    const int k[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(m(i, j), f("c", k[i][j]), "covariance-matrix-element");
    P q;
    const Eigen::Matrix3f s = vp_symmetric<float, 3>("s");
    q.setCovariance(s);
    const Eigen::Matrix3f r = q.getCovarianceMatrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(r(i, j), s(i, j), "set-covariance-is-returned");
    vp_eq(q.data[3], 1, "homogeneous-coordinate"); vp_eq(q.x, 0, "position-untouched"); vp_eq(q.y, 0, "position-untouched"); vp_eq(q.z, 0, "position-untouched");
}
CONTRACT(covariance_point) { covariance_spec<PointCovariance>(); }
CONTRACT(covariance_point_normal) { covariance_spec<PointNormalCovariance>(); }
static void pose_common(const PointAngleAxis& p, const Eigen::Vector3f& t) {
    for (int i = 0; i < 3; ++i) vp_eqf(p.data[i], t(i), "pose-position");
    vp_eq(p.data[3], 1, "homogeneous-coordinate");
    vp_eq(p.data_r[3], 0, "direction-padding");
}
static void pose_spec(PointAngleAxis& p, const Eigen::Vector3f& t, const Eigen::Matrix3f& R) {
    pose_common(p, t);
    const Eigen::Matrix3f r = p.getRotationMatrix();
    const Eigen::Isometry3f T = p.getIsometry();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) { vp_eqf(r(i, j), R(i, j), "pose-rotation"); vp_eqf(T.matrix()(i, j), R(i, j), "pose-rotation"); }
        vp_eqf(T.matrix()(i, 3), t(i), "pose-translation");
    }
}
static float away(float a) { return a; }
// rotation by any angle about any axis
static Eigen::AngleAxisf any_rotation(Eigen::Matrix3f& R, double lo) {
    double u[3];
    vp_unit3("u", u);
    const double a = vp_real("a");
    vp_assume(a >= lo && a <= 3.0);
    const double s = std::sin(a), c = std::cos(a);
    const double K[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = float((i == j ? c : 0.0) + s * K[i][j] + (1 - c) * u[i] * u[j]);
    return Eigen::AngleAxisf(float(a), Eigen::Vector3f(float(u[0]), float(u[1]), float(u[2])));
}
CONTRACT(pose_from_angle_axis) {
    const Eigen::Vector3f t = vp_matrix<float, 3, 1>("t");
    Eigen::Matrix3f R;
    const Eigen::AngleAxisf aa = any_rotation(R, 0.01);
    At<PointAngleAxis, Eigen::Vector3f, Eigen::AngleAxisf> P(t, aa);
    pose_spec(*P.p, t, R);
    for (int i = 0; i < 3; ++i) vp_eqf(P.p->data_r[i], aa.axis()(i) * aa.angle(), "rotation-vector-is-angle-times-axis");
    vp_eqf(P.p->angle(), aa.angle(), "rotation-angle");
    const Eigen::AngleAxisf back = P.p->getAngleAxis();
    vp_eqf(back.angle(), aa.angle(), "angle-axis-returned");
    for (int i = 0; i < 3; ++i) vp_eqf(back.axis()(i), aa.axis()(i), "angle-axis-returned");
}
CONTRACT(pose_identity_rotation) {
    const Eigen::Vector3f t = vp_matrix<float, 3, 1>("t");
    At<PointAngleAxis, Eigen::Vector3f, Eigen::AngleAxisf> P(t, Eigen::AngleAxisf(0.0f, Eigen::Vector3f(1, 0, 0)));
    pose_spec(*P.p, t, Eigen::Matrix3f::Identity());
    At<PointAngleAxis, Eigen::Vector3f, Eigen::Quaternionf> Q(t, Eigen::Quaternionf(1, 0, 0, 0));
    pose_spec(*Q.p, t, Eigen::Matrix3f::Identity());
}
static bool rotating(const Eigen::Quaternionf& q) { return q.x() * q.x() + q.y() * q.y() + q.z() * q.z() > 1e-4f; }
CONTRACT(pose_from_quaternion) {
    const Eigen::Vector3f t = vp_matrix<float, 3, 1>("t");
    const Eigen::Quaternionf q = vp_rotation_quaternion<float>("q");
    vp_assume(rotating(q));
    At<PointAngleAxis, Eigen::Vector3f, Eigen::Quaternionf> P(t, q);
    pose_spec(*P.p, t, vp_rotation<float>("q"));
}
CONTRACT(pose_from_translation_quaternion) {
    const Eigen::Vector3f t = vp_matrix<float, 3, 1>("t");
    const Eigen::Quaternionf q = vp_rotation_quaternion<float>("q");
    vp_assume(rotating(q));
    At<PointAngleAxis, Eigen::Translation<float, 3>, Eigen::Quaternionf> P(Eigen::Translation<float, 3>(t), q);
    pose_spec(*P.p, t, vp_rotation<float>("q"));
}
CONTRACT(pose_from_translation_matrix) {
    const Eigen::Vector3f t = vp_matrix<float, 3, 1>("t");
    const Eigen::Quaternionf q = vp_rotation_quaternion<float>("q");
    vp_assume(rotating(q));
    At<PointAngleAxis, Eigen::Translation<float, 3>, Eigen::Matrix3f> P(Eigen::Translation<float, 3>(t), vp_rotation<float>("q"));
    pose_spec(*P.p, t, vp_rotation<float>("q"));
}
CONTRACT(pose_from_isometry) {
    const Eigen::Isometry3f T = vp_isometry<float>("q", "t");
    const Eigen::Quaternionf q = vp_rotation_quaternion<float>("q");
    vp_assume(rotating(q));
    At<PointAngleAxis, Eigen::Isometry3f> P(T);
    const Eigen::Vector3f t(T.matrix()(0, 3), T.matrix()(1, 3), T.matrix()(2, 3));
    pose_spec(*P.p, t, vp_rotation<float>("q"));
}
