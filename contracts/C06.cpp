// C06: precomputed transform components: matrix, rotation, rotation vector, angle, sine and cosine describe one transform.
#include "vp_eigen.hpp"
#include "eigen_ext/precomputed_transform_components.hpp"
#include <cmath>
using PTC = eigen_ext::PrecomputedTransformComponents<double>;

static void layout_spec(const PTC& c) {
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) vp_eq(c.T()(i, j), c.R()(i, j), "matrix-holds-rotation");
        vp_eq(c.T()(i, 3), c.t()(i), "matrix-holds-translation");
        vp_eq(c.T()(3, i), 0.0, "matrix-last-row");
    }
    vp_eq(c.T()(3, 3), 1.0, "matrix-last-row");
    vp_eq(c.sina(), std::sin(c.a()), "sine-of-angle");
    vp_eq(c.cosa(), std::cos(c.a()), "cosine-of-angle");
}
static void rodrigues_spec(const PTC& c, bool zero_case) {
    const double r[3] = {c.r()(0), c.r()(1), c.r()(2)};
    const double th = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    vp_eq(c.a(), th, "angle-is-length-of-rotation-vector");
    if (th > 1e-6) {
        const double s = std::sin(th) / th, v = (1 - std::cos(th)) / (th * th);
        const double K[3][3] = {{0, -r[2], r[1]}, {r[2], 0, -r[0]}, {-r[1], r[0], 0}};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                vp_eq(c.R()(i, j), (i == j ? std::cos(th) : 0.0) + s * K[i][j] + v * r[i] * r[j], "rotation-is-exponential-of-rotation-vector");
        vp_cover("rotating");
    } else if (zero_case && th == 0.0) {
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) vp_eq(c.R()(i, j), i == j ? 1.0 : 0.0, "zero-rotation-is-identity");
        vp_cover("not-rotating");
    }
}
CONTRACT(from_vectors) {
    const Eigen::Vector3d r = vp_matrix<double, 3, 1>("r"), t = vp_matrix<double, 3, 1>("t");
    const PTC c(r, t);
    for (int i = 0; i < 3; ++i) { vp_eq(c.r()(i), r(i), "rotation-vector-kept"); vp_eq(c.t()(i), t(i), "translation-kept"); }
    layout_spec(c);
    rodrigues_spec(c, true);
}
CONTRACT(from_zero_rotation) {
    const Eigen::Vector3d t = vp_matrix<double, 3, 1>("t");
    const PTC c(Eigen::Vector3d(0, 0, 0), t);
    layout_spec(c);
    rodrigues_spec(c, true);
    vp_eq(c.a(), 0.0, "zero-rotation-angle");
    for (int i = 0; i < 3; ++i) vp_eq(c.t()(i), t(i), "translation-kept");
}
CONTRACT(from_matrix) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    const PTC c(Eigen::Matrix4d(T.matrix()));
    vp_mat_eq(c.T(), T.matrix(), "matrix-kept");
    layout_spec(c);
    rodrigues_spec(c, false);
}
CONTRACT(from_identity_rotation_matrix) {
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    for (int i = 0; i < 3; ++i) T(i, 3) = vp_real_i("t", i);
    const PTC c(T);
    vp_mat_eq(c.T(), T, "matrix-kept");
    layout_spec(c);
    vp_eq(c.a(), 0.0, "zero-rotation-angle");
    for (int i = 0; i < 3; ++i) vp_eq(c.r()(i), 0.0, "zero-rotation-vector");
}
