// C05: covariance matrices: symmetry / validity tests, block reordering, rotation of point covariances.
#include "vp_eigen.hpp"
#include "eigen_ext/covariance.hpp"
#include "eigen_ext/geometry.hpp"
#include <cmath>
using M3 = Eigen::Matrix3d;
using M6 = Eigen::Matrix<double, 6, 6>;
template <typename M>
static void symmetric_spec(const M& m, int n) {
    const double eps = vp_real("eps");
    vp_assume(eps >= 0.0);
    const bool got = vp_bool("default_precision") ? eigen_ext::is_symmetric(m) : eigen_ext::is_symmetric(m, eps);
    const double e = vp_bool("default_precision") ? 0.0 : eps;
    if (got) {
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) vp_ensure(std::abs(m(i, j) - m(j, i)) <= e, "accepted-matrix-is-symmetric");
        vp_cover("accepted");
    } else {
        bool any = false;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j) if (std::abs(m(i, j) - m(j, i)) > e) any = true;
        vp_ensure(any, "symmetric-matrix-accepted");
        vp_cover("rejected");
    }
}
CONTRACT(is_symmetric_3) { symmetric_spec(vp_matrix<double, 3, 3>("m"), 3); }
CONTRACT(is_symmetric_4) { symmetric_spec(vp_matrix<double, 4, 4>("m"), 4); }
CONTRACT(is_symmetric_dynamic) {
    const int n = int(vp_case("n", 1, 3));
    Eigen::MatrixXd m(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = vp_real_i("m", i * 3 + j);
    symmetric_spec(m, n);
}
// every single asymmetric element pair of a 6x6 matrix is noticed
CONTRACT(is_symmetric_6) {
    M6 m = vp_symmetric<double, 6>("m");
    const double d = vp_real("d");
    const long k = vp_case("k", 0, 35);
    const long i = k / 6, j = k % 6;
    vp_assume(i != j);
    vp_ensure(eigen_ext::is_symmetric(m), "symmetric-matrix-accepted");
    m(i, j) += d;
    const bool got = eigen_ext::is_symmetric(m);
    vp_ensure(got == (d == 0.0), "asymmetric-element-noticed");
}
// positive definite (Sylvester, from the lower triangle), symmetric, finite, square
CONTRACT(is_valid_covariance_2) {
    const Eigen::Matrix2d m = vp_matrix<double, 2, 2>("m");
    const double eps = vp_real("eps");
    vp_assume(eps >= 0.0);
    const bool got = eigen_ext::is_valid_covariance(m, eps);
    const bool pd = m(0, 0) > 0.0 && m(0, 0) * m(1, 1) - m(1, 0) * m(1, 0) > 0.0;
#ifndef VP_SYMBOLIC  // near-singular inputs are decided by rounding
    const double det = m(0, 0) * m(1, 1) - m(1, 0) * m(1, 0), big = std::abs(m(0, 0) * m(1, 1)) + m(1, 0) * m(1, 0);
    if (std::abs(det) <= 1e-9 * big) return;
#endif
    const bool sym = std::abs(m(0, 1) - m(1, 0)) <= eps;
    vp_ensure(got == (pd && sym), "valid-covariance-iff-symmetric-positive-definite");
}
CONTRACT(is_valid_covariance_3) {
    const M3 m = vp_symmetric<double, 3>("m");
    const double m1 = m(0, 0), m2 = m(0, 0) * m(1, 1) - m(1, 0) * m(1, 0);
    const double m3 = m(0, 0) * (m(1, 1) * m(2, 2) - m(2, 1) * m(2, 1)) - m(1, 0) * (m(1, 0) * m(2, 2) - m(2, 1) * m(2, 0)) +
                      m(2, 0) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
#ifndef VP_SYMBOLIC
    const double b = std::abs(m(0, 0)) + std::abs(m(1, 1)) + std::abs(m(2, 2)) + std::abs(m(1, 0)) + std::abs(m(2, 0)) + std::abs(m(2, 1));
    if (std::abs(m1) <= 1e-9 * b || std::abs(m2) <= 1e-9 * b * b || std::abs(m3) <= 1e-9 * b * b * b) return;
#endif
    const bool got = eigen_ext::is_valid_covariance(m);
    if (got) {
        vp_ensure(m1 > 0.0, "valid-covariance-positive-definite-1");
        vp_ensure(m2 > 0.0, "valid-covariance-positive-definite-2");
        vp_ensure(m3 > 0.0, "valid-covariance-positive-definite-3");
        vp_cover("valid");
    } else {
        vp_ensure(!(m1 > 0.0 && m2 > 0.0 && m3 > 0.0), "positive-definite-matrix-is-valid");
        vp_cover("invalid");
    }
}
// any matrix with a non-finite element is invalid, wherever it is
CONTRACT(is_valid_covariance_finite) {
    M3 m;
    const double f = vp_real("f");
    vp_assume(f >= 1.0);
    for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = (i % 4 == 0) ? f : 0.0;
    vp_ensure(eigen_ext::is_valid_covariance(m), "diagonal-positive-matrix-is-valid");
    const long k = vp_case("k", 0, 8);
    const double bad = vp_real_any("bad");
    vp_assume(!vp_finite(bad));
    m(k / 3, k % 3) = bad;
    vp_ensure(!eigen_ext::is_valid_covariance(m), "non-finite-element-rejected");
}
CONTRACT(is_valid_covariance_square) {
    const int r = int(vp_case("r", 1, 3)), c = int(vp_case("c", 1, 3));
    vp_assume(r != c);
    Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = (i == j) ? 1.0 : 0.0;
    vp_ensure(!eigen_ext::is_valid_covariance(m), "non-square-matrix-rejected");
}
template <typename M>
static void reorder_spec(const M& m, long n, long b) {
    bool threw = false;
    M got = m;
    try { got = eigen_ext::reorder_covariance(m, b); } catch (const std::runtime_error&) { threw = true; }
    if (b <= 0 || b >= n) { vp_ensure(threw, "boundary-outside-matrix-rejected"); return; }
    vp_ensure(!threw, "valid-boundary-accepted");
    if (threw) return;
    vp_ieq(got.rows(), n, "reordered-size");
    vp_ieq(got.cols(), n, "reordered-size");
    // row / column i of the result is row / column (i + b) mod n of the argument
    for (long i = 0; i < n; ++i)
        for (long j = 0; j < n; ++j)
            vp_eq(got(i, j), m(i + b < n ? i + b : i + b - n, j + b < n ? j + b : j + b - n), "reordered-element");
}
CONTRACT(reorder_6) {
    const M6 m = vp_matrix<double, 6, 6>("m");
    const long b = vp_case("b", 0, 7);
    reorder_spec(m, 6, b);
}
CONTRACT(reorder_twice) {
    const M6 m = vp_matrix<double, 6, 6>("m");
    const M6 r = eigen_ext::reorder_covariance(M6(eigen_ext::reorder_covariance(m, 3)), 3);
    vp_mat_eq(r, m, "reordering-6x6-at-3-is-an-involution");
}
CONTRACT(reorder_dynamic) {
    const long n = vp_case("n", 1, 4), b = vp_case("b", 0, 5);
    Eigen::MatrixXd m(n, n);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) m(i, j) = vp_real_i("m", i * 5 + j);
    reorder_spec(m, n, b);
}
CONTRACT(reorder_not_square) {
    const long r = vp_case("r", 1, 3), c = vp_case("c", 1, 3);
    vp_assume(r != c);
    Eigen::MatrixXd m(r, c);
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = 0.0;
    bool threw = false;
    try { eigen_ext::reorder_covariance(m, 1); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "non-square-matrix-not-reordered");
}
static void rotated_spec(const M3& got, const M3& C, const M3& R) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double s = 0;
            for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s += R(i, k) * C(k, l) * R(j, l);
            vp_eq(got(i, j), s, "rotated-point-covariance");
        }
}
CONTRACT(rotate_point_covariance_matrix) {
    const M3 C = vp_matrix<double, 3, 3>("c"), R = vp_matrix<double, 3, 3>("r");
    rotated_spec(eigen_ext::rotate_point_covariance(C, R), C, R);
}
CONTRACT(rotate_point_covariance_quaternion) {
    const M3 C = vp_symmetric<double, 3>("c");
    const Eigen::Quaterniond q = vp_rotation_quaternion("q");
    const M3 R = vp_rotation("q");
    rotated_spec(eigen_ext::rotate_point_covariance(C, q), C, R);
}
CONTRACT(rotate_point_covariance_angle_axis) {
    const M3 C = vp_symmetric<double, 3>("c");
    double u[3];
    vp_unit3("u", u);
    const double a = vp_real("a");
    const double s = std::sin(a), c = std::cos(a);
    const double K[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}};
    M3 R;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = (i == j ? c : 0.0) + s * K[i][j] + (1 - c) * u[i] * u[j];
    rotated_spec(eigen_ext::rotate_point_covariance(C, Eigen::AngleAxisd(a, Eigen::Vector3d(u[0], u[1], u[2]))), C, R);
}
