// Arbitrary Eigen values for contracts.
#pragma once
#include "vp.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
template <typename S = double, int R = 3, int C = 3>
inline Eigen::Matrix<S, R, C> vp_matrix(const char* n) {
    Eigen::Matrix<S, R, C> m;
    for (int i = 0; i < R; ++i)
        for (int j = 0; j < C; ++j) m(i, j) = S(vp_real_i(n, i * C + j));
    return m;
}
template <typename S = double, int R = 3>
inline Eigen::Matrix<S, R, R> vp_symmetric(const char* n) {
    Eigen::Matrix<S, R, R> m;
    for (int i = 0; i < R; ++i)
        for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = S(vp_real_i(n, i * R + j));
    return m;
}
template <typename S = double>
inline Eigen::Quaternion<S> vp_rotation_quaternion(const char* n) {
    double q[4];
    vp_unit4(n, q);
    return Eigen::Quaternion<S>(S(q[3]), S(q[0]), S(q[1]), S(q[2]));
}
// any rotation: the map from unit quaternions to SO(3) is onto
template <typename S = double>
inline Eigen::Matrix<S, 3, 3> vp_rotation(const char* n) {
    const Eigen::Quaternion<S> q = vp_rotation_quaternion<S>(n);
    const S w = q.w(), x = q.x(), y = q.y(), z = q.z();
    Eigen::Matrix<S, 3, 3> r;
    r(0, 0) = 1 - 2 * (y * y + z * z); r(0, 1) = 2 * (x * y - w * z);     r(0, 2) = 2 * (x * z + w * y);
    r(1, 0) = 2 * (x * y + w * z);     r(1, 1) = 1 - 2 * (x * x + z * z); r(1, 2) = 2 * (y * z - w * x);
    r(2, 0) = 2 * (x * z - w * y);     r(2, 1) = 2 * (y * z + w * x);     r(2, 2) = 1 - 2 * (x * x + y * y);
    return r;
}
template <typename S = double>
inline Eigen::Transform<S, 3, Eigen::Isometry> vp_isometry(const char* nr, const char* nt) {
    Eigen::Transform<S, 3, Eigen::Isometry> T;
    const Eigen::Matrix<S, 3, 3> r = vp_rotation<S>(nr);
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) T.matrix()(i, j) = r(i, j);
        T.matrix()(i, 3) = S(vp_real_i(nt, i));
    }
    T.matrix()(3, 0) = T.matrix()(3, 1) = T.matrix()(3, 2) = S(0);
    T.matrix()(3, 3) = S(1);
    return T;
}
template <typename A, typename B>
inline void vp_mat_eq(const A& a, const B& b, const char* label) {
    vp_ieq(a.rows(), b.rows(), label);
    vp_ieq(a.cols(), b.cols(), label);
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) vp_eq(a(i, j), b(i, j), label);
}
template <typename A, typename B>
inline void vp_mat_eqf(const A& a, const B& b, const char* label) {
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) vp_eqf(a(i, j), b(i, j), label);
}
