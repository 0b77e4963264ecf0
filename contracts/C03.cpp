// C03: relative transforms, change of body frame, construction of transforms, constant-velocity rates.
#include "vp_eigen.hpp"
#include "eigen_ext/geometry.hpp"
#include <cmath>
using Iso = Eigen::Isometry3d;
using V6 = Eigen::Matrix<double, 6, 1>;
static void rigid_eq(const Iso& T, const double R[3][3], const double t[3], const char* label) {
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) vp_eq(T.matrix()(i, j), R[i][j], label);
        vp_eq(T.matrix()(i, 3), t[i], label);
        vp_eq(T.matrix()(3, i), 0.0, label);
    }
    vp_eq(T.matrix()(3, 3), 1.0, label);
}
// A^-1 B from the definition
static void rel_spec(const Iso& A, const Iso& B, double R[3][3], double t[3]) {
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) { R[i][j] = 0; for (int k = 0; k < 3; ++k) R[i][j] += A.matrix()(k, i) * B.matrix()(k, j); }
        t[i] = 0;
        for (int k = 0; k < 3; ++k) t[i] += A.matrix()(k, i) * (B.matrix()(k, 3) - A.matrix()(k, 3));
    }
}
CONTRACT(relative_transform) {
    const Iso A = vp_isometry("qa", "ta"), B = vp_isometry("qb", "tb");
    const Iso r = eigen_ext::relative_transform<double, 3>(A, B);
    double R[3][3], t[3];
    rel_spec(A, B, R, t);
    rigid_eq(r, R, t, "relative-transform");
    const Iso back = A * r;
    vp_mat_eq(back.matrix(), B.matrix(), "relative-transform-takes-first-pose-to-second");
}
CONTRACT(relative_transform_frame) {
    // T_B1_B2 = X T X^-1, checked as  got * X == X * T
    const Iso T = vp_isometry("q", "t"), X = vp_isometry("qx", "tx");
    const Iso got = eigen_ext::change_relative_transform_frame<double>(T, X);
    Eigen::Matrix4d l, r;
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j) {
            l(i, j) = r(i, j) = 0;
            for (int k = 0; k < 4; ++k) { l(i, j) += got.matrix()(i, k) * X.matrix()(k, j); r(i, j) += X.matrix()(i, k) * T.matrix()(k, j); }
        }
    vp_mat_eq(l, r, "relative-transform-conjugated");
    const Iso got3 = eigen_ext::change_relative_transform_frame<double>(T, X, Iso(X.inverse()));
    vp_mat_eq(got3.matrix(), got.matrix(), "relative-transform-overloads-agree");
}
CONTRACT(relative_transform_frame_explicit) {
    const Iso T = vp_isometry("q", "t"), X = vp_isometry("qx", "tx"), Y = vp_isometry("qy", "ty");
    const Iso got = eigen_ext::change_relative_transform_frame<double>(T, X, Y);
    Eigen::Matrix4d m, want;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m(i, j) = 0; for (int k = 0; k < 4; ++k) m(i, j) += X.matrix()(i, k) * T.matrix()(k, j); }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { want(i, j) = 0; for (int k = 0; k < 4; ++k) want(i, j) += m(i, k) * Y.matrix()(k, j); }
    vp_mat_eq(got.matrix(), want, "relative-transform-explicit-inverse");
}
CONTRACT(to_transform_quaternion) {
    const Eigen::Quaterniond q = vp_rotation_quaternion("q");
    double t[3], R[3][3];
    for (int i = 0; i < 3; ++i) t[i] = vp_real_i("t", i);
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    R[0][0] = w * w + x * x - y * y - z * z; R[0][1] = 2 * (x * y - w * z); R[0][2] = 2 * (x * z + w * y);
    R[1][0] = 2 * (x * y + w * z); R[1][1] = w * w - x * x + y * y - z * z; R[1][2] = 2 * (y * z - w * x);
    R[2][0] = 2 * (x * z - w * y); R[2][1] = 2 * (y * z + w * x); R[2][2] = w * w - x * x - y * y + z * z;
    rigid_eq(eigen_ext::to_transform<double, 3>(Eigen::Translation3d(t[0], t[1], t[2]), q), R, t, "to-transform-translation-quaternion");
    rigid_eq(eigen_ext::to_transform<double, 3>(Eigen::Vector3d(t[0], t[1], t[2]), q), R, t, "to-transform-vector-quaternion");
}
CONTRACT(to_transform_matrix) {
    const Eigen::Matrix3d M = vp_rotation("q");
    double t[3], R[3][3];
    for (int i = 0; i < 3; ++i) t[i] = vp_real_i("t", i);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = M(i, j);
    rigid_eq(eigen_ext::to_transform<double, 3>(Eigen::Vector3d(t[0], t[1], t[2]), M), R, t, "to-transform-vector-matrix");
}
// moving at the returned (body) rates for time dt takes pose 1 to pose 2: translation part, and rotation vector part by
// exponentiating it again
CONTRACT(linear_rates) {
    const Iso A = vp_isometry("qa", "ta");
    const Eigen::Quaterniond q = vp_rotation_quaternion("qr");
    Iso D;
    D.matrix().setIdentity();
    const Eigen::Matrix3d Rq = vp_rotation("qr");
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) D.matrix()(i, j) = Rq(i, j); D.matrix()(i, 3) = vp_real_i("tr", i); }
    const Iso B = A * D;
    const double dt = vp_real("dt");
    vp_assume(dt > 0.0);
    const V6 rates = eigen_ext::linear_rates<double>(A, B, dt);
    for (int i = 0; i < 3; ++i) vp_eq(rates(3 + i) * dt, D.matrix()(i, 3), "linear-rate");
    double r[3];
    for (int i = 0; i < 3; ++i) r[i] = rates(i) * dt;
    const double th = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
#ifndef VP_SYMBOLIC  // executed only: the range of the arc tangent is not axiomatised
    vp_ensure(th <= 3.1415926535897932 + 1e-9, "angular-rate-is-the-shortest-rotation");
#endif
    if (th > 1e-6) {
        const double c = std::cos(th), s = std::sin(th) / th, v = (1 - c) / (th * th);
        const double K[3][3] = {{0, -r[2], r[1]}, {r[2], 0, -r[0]}, {-r[1], r[0], 0}};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                vp_eq(D.matrix()(i, j), (i == j ? c : 0.0) + s * K[i][j] + v * r[i] * r[j], "angular-rate-exponentiates-to-relative-rotation");
        vp_cover("rotating");
    }
    vp_cover("rates");
}
CONTRACT(linear_rates_rejects_dt) {
    const Iso A = vp_isometry("qa", "ta"), B = vp_isometry("qb", "tb");
    const double dt = vp_real("dt");
    vp_assume(dt <= 0.0);
    bool threw = false;
    try { eigen_ext::linear_rates<double>(A, B, dt); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "non-positive-dt-rejected");
}
