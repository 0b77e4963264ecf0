// C02: covariance of a composed transform (Mangelson / Barfoot): A P A^T + Q + C A^T + (C A^T)^T with A = Ad(T^-1).
#include "vp_eigen.hpp"
#include "eigen_ext/geometry.hpp"
using M6 = Eigen::Matrix<double, 6, 6>;

// Ad(T^-1) = [R^T 0; -R^T [t]x, R^T], written out
static M6 inverse_adjoint_spec(const Eigen::Isometry3d& T) {
    double R[3][3], t[3], K[3][3] = {};
    for (int i = 0; i < 3; ++i) { t[i] = T.matrix()(i, 3); for (int j = 0; j < 3; ++j) R[i][j] = T.matrix()(i, j); }
    K[0][1] = -t[2]; K[0][2] = t[1]; K[1][0] = t[2]; K[1][2] = -t[0]; K[2][0] = -t[1]; K[2][1] = t[0];
    M6 A;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            A(i, j) = R[j][i];
            A(i, j + 3) = 0.0;
            A(i + 3, j + 3) = R[j][i];
            A(i + 3, j) = -(R[0][i] * K[0][j] + R[1][i] * K[1][j] + R[2][i] * K[2][j]);
        }
    return A;
}
static double apat(const M6& A, const M6& P, int i, int j) {
    double s = 0;
    for (int k = 0; k < 6; ++k) { double u = 0; for (int l = 0; l < 6; ++l) u += P(k, l) * A(j, l); s += A(i, k) * u; }
    return s;
}
static double cat(const M6& A, const M6& C, int i, int j) {
    double s = 0;
    for (int k = 0; k < 6; ++k) s += C(i, k) * A(j, k);
    return s;
}
CONTRACT(compose_general) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    const M6 P = vp_symmetric<double, 6>("p"), Q = vp_symmetric<double, 6>("r"), C = vp_matrix<double, 6, 6>("c");
    const M6 A = inverse_adjoint_spec(T);
    const M6 got = eigen_ext::compose_transform_covariance<double, 3>(P, Q, T, C);
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) {
            vp_eq(got(i, j), apat(A, P, i, j) + Q(i, j) + cat(A, C, i, j) + cat(A, C, j, i), "composed-covariance");
            vp_eq(got(i, j), got(j, i), "composed-covariance-symmetric");
        }
}
CONTRACT(compose_no_cross) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    const M6 P = vp_symmetric<double, 6>("p"), Q = vp_symmetric<double, 6>("r");
    const M6 A = inverse_adjoint_spec(T);
    const M6 got = eigen_ext::compose_transform_covariance<double, 3>(P, Q, T);
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) vp_eq(got(i, j), apat(A, P, i, j) + Q(i, j), "composed-covariance-default-cross");
}
// composing with the identity adds the covariances; composing with an exact transform and back restores the covariance
CONTRACT(compose_identity) {
    const M6 P = vp_symmetric<double, 6>("p"), Q = vp_symmetric<double, 6>("r");
    const M6 got = eigen_ext::compose_transform_covariance<double, 3>(P, Q, Eigen::Isometry3d::Identity());
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) vp_eq(got(i, j), P(i, j) + Q(i, j), "composed-covariance-identity");
}
CONTRACT(compose_there_and_back) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    const M6 P = vp_symmetric<double, 6>("p");
    const M6 Z = M6::Zero();
    const M6 there = eigen_ext::compose_transform_covariance<double, 3>(P, Z, T);
    const M6 back = eigen_ext::compose_transform_covariance<double, 3>(there, Z, Eigen::Isometry3d(T.inverse()));
    vp_mat_eq(back, P, "composed-covariance-there-and-back");
}
