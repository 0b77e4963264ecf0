// C01: the adjoint of a rigid transform, and everything that changes frame with it.
#include "vp_eigen.hpp"
#include "eigen_ext/geometry.hpp"
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;

// Ad = [R 0; [t]x R, R] written out from the definition
static M6 adjoint_spec(const Eigen::Isometry3d& T) {
    double R[3][3], t[3], K[3][3] = {};
    for (int i = 0; i < 3; ++i) { t[i] = T.matrix()(i, 3); for (int j = 0; j < 3; ++j) R[i][j] = T.matrix()(i, j); }
    K[0][1] = -t[2]; K[0][2] = t[1]; K[1][0] = t[2]; K[1][2] = -t[0]; K[2][0] = -t[1]; K[2][1] = t[0];
    M6 A;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            A(i, j) = R[i][j];
            A(i, j + 3) = 0.0;
            A(i + 3, j + 3) = R[i][j];
            A(i + 3, j) = K[i][0] * R[0][j] + K[i][1] * R[1][j] + K[i][2] * R[2][j];
        }
    return A;
}
static V6 mul(const M6& a, const V6& x) {
    V6 y;
    for (int i = 0; i < 6; ++i) { double s = 0; for (int k = 0; k < 6; ++k) s += a(i, k) * x(k); y(i) = s; }
    return y;
}
static M6 mul(const M6& a, const M6& b) {
    M6 y;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { double s = 0; for (int k = 0; k < 6; ++k) s += a(i, k) * b(k, j); y(i, j) = s; }
    return y;
}
CONTRACT(adjoint_definition) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    vp_mat_eq(eigen_ext::transform_adjoint(T), adjoint_spec(T), "adjoint-is-[R,0;tR,R]");
}
CONTRACT(adjoint_homomorphism) {
    const Eigen::Isometry3d A = vp_isometry("qa", "ta"), B = vp_isometry("qb", "tb");
    const Eigen::Isometry3d AB = A * B;
    vp_mat_eq(eigen_ext::transform_adjoint(AB), mul(eigen_ext::transform_adjoint(A), eigen_ext::transform_adjoint(B)),
            "adjoint-of-composition");
}
CONTRACT(adjoint_inverse) {
    const Eigen::Isometry3d A = vp_isometry("qa", "ta");
    const Eigen::Isometry3d Ai = A.inverse();
    const M6 P = mul(eigen_ext::transform_adjoint(A), eigen_ext::transform_adjoint(Ai));
    vp_mat_eq(P, M6(M6::Identity()), "adjoint-of-inverse");
}
CONTRACT(twist_frame) {
    const Eigen::Isometry3d A = vp_isometry("qa", "ta");
    const V6 v = vp_matrix<double, 6, 1>("v");
    const V6 r = eigen_ext::change_twist_reference_frame<double>(A, v);
    vp_mat_eq(r, mul(adjoint_spec(A), v), "twist-frame-change");
}
CONTRACT(covariance_frame) {
    const Eigen::Isometry3d A = vp_isometry("qa", "ta");
    const M6 C = vp_matrix<double, 6, 6>("c");
    const M6 Ad = adjoint_spec(A);
    M6 AdT;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) AdT(i, j) = Ad(j, i);
    const M6 want = mul(mul(Ad, C), AdT);
    vp_mat_eq(eigen_ext::change_covariance_frame<double>(C, A), want, "covariance-frame-change-by-transform");
    vp_mat_eq(eigen_ext::change_covariance_frame<double>(C, Ad), want, "covariance-frame-change-by-adjoint");
}
CONTRACT(covariance_frame_round_trip) {
    const Eigen::Isometry3d A = vp_isometry("qa", "ta");
    const M6 C = vp_symmetric<double, 6>("c");
    const M6 B = eigen_ext::change_covariance_frame<double>(C, A);
    const M6 back = eigen_ext::change_covariance_frame<double>(B, Eigen::Isometry3d(A.inverse()));
    vp_mat_eq(back, C, "covariance-frame-round-trip");
    for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) vp_eq(B(i, j), B(j, i), "covariance-frame-change-symmetric");
}
