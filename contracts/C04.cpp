// C04: vector and matrix helpers: cross-product matrices, interpolation, normalisation, polar coordinates.
#include "vp_eigen.hpp"
#include "eigen_ext/geometry.hpp"
#include "eigen_ext/matrix.hpp"
#include <cmath>
CONTRACT(skew_symmetric) {
    const Eigen::Vector3d v = vp_matrix<double, 3, 1>("v"), x = vp_matrix<double, 3, 1>("x");
    const Eigen::Matrix3d K = eigen_ext::skew_symmetric<double>(v);
    // K x = v cross x, K^T = -K
    const double c[3] = {v(1) * x(2) - v(2) * x(1), v(2) * x(0) - v(0) * x(2), v(0) * x(1) - v(1) * x(0)};
    for (int i = 0; i < 3; ++i) {
        vp_eq(K(i, 0) * x(0) + K(i, 1) * x(1) + K(i, 2) * x(2), c[i], "skew-matrix-is-cross-product");
        for (int j = 0; j < 3; ++j) vp_eq(K(i, j), -K(j, i), "skew-matrix-antisymmetric");
    }
    const Eigen::Vector3d back = eigen_ext::from_skew_symmetric<double>(K);
    for (int i = 0; i < 3; ++i) vp_eq(back(i), v(i), "skew-round-trip");
}
CONTRACT(from_skew_symmetric) {
    Eigen::Matrix3d M;
    for (int i = 0; i < 9; ++i) M(i / 3, i % 3) = vp_int_i("m", i, -2, 2) * 0.5;
    if (vp_bool("make_skew")) {
        const Eigen::Matrix3d N = M;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M(i, j) = N(i, j) - N(j, i);
        const long e = vp_int("perturb", -1, 8);
        if (e >= 0) M(e / 3, e % 3) += vp_real("eps");
    }
    bool skew = true;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(M(i, j) == -M(j, i))) skew = false;
    bool threw = false;
    Eigen::Vector3d v(0, 0, 0);
    try { v = eigen_ext::from_skew_symmetric<double>(M); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw == !skew, "non-skew-matrix-rejected");
    if (!threw) {
        vp_eq(v(0), M(2, 1), "skew-vector");
        vp_eq(v(1), M(0, 2), "skew-vector");
        vp_eq(v(2), M(1, 0), "skew-vector");
    }
}
CONTRACT(from_skew_symmetric_any) {
    const Eigen::Matrix3d M = vp_matrix<double, 3, 3>("m");
    bool threw = false;
    Eigen::Vector3d v(0, 0, 0);
    try { v = eigen_ext::from_skew_symmetric<double>(M); } catch (const std::runtime_error&) { threw = true; }
    if (!threw)
        for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) vp_eq(M(i, j), -M(j, i), "accepted-matrix-is-skew");
            vp_eq(v(i), M((i + 2) % 3, (i + 1) % 3), "skew-vector");
        }
}
CONTRACT(linear_interpolate) {
    const double s = vp_real("s");
    const Eigen::Matrix<double, 3, 1> a = vp_matrix<double, 3, 1>("a"), b = vp_matrix<double, 3, 1>("b");
    const Eigen::Matrix<double, 3, 1> r = eigen_ext::linear_interpolate(a, b, s);
    for (int i = 0; i < 3; ++i) vp_eq(r(i), a(i) + s * (b(i) - a(i)), "vector-interpolation");
    const Eigen::Matrix<double, 3, 1> r0 = eigen_ext::linear_interpolate(a, b, 0.0), r1 = eigen_ext::linear_interpolate(a, b, 1.0);
    for (int i = 0; i < 3; ++i) { vp_eq(r0(i), a(i), "interpolation-at-0"); vp_eq(r1(i), b(i), "interpolation-at-1"); }
    const Eigen::Matrix<double, 2, 4> c = vp_matrix<double, 2, 4>("c"), d = vp_matrix<double, 2, 4>("d");
    const Eigen::Matrix<double, 2, 4> m = eigen_ext::linear_interpolate(c, d, s);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) vp_eq(m(i, j), c(i, j) + s * (d(i, j) - c(i, j)), "matrix-interpolation");
}
CONTRACT(safe_normalise) {
    const Eigen::Vector3d v = vp_matrix<double, 3, 1>("v");
    const double n2 = v(0) * v(0) + v(1) * v(1) + v(2) * v(2);
    bool threw = false;
    Eigen::Vector3d u(0, 0, 0);
    try { u = vp_bool("by_components") ? eigen_ext::safe_normalise<double>(v(0), v(1), v(2)) : eigen_ext::safe_normalise<double, 3>(v); }
    catch (const std::runtime_error&) { threw = true; }
    if (threw) {
        vp_ensure(n2 == 0.0, "only-zero-vector-rejected");
        vp_cover("rejected");
    } else {
        vp_ensure(!(v(0) == 0.0 && v(1) == 0.0 && v(2) == 0.0), "zero-vector-rejected");
        const double n = std::sqrt(n2);
        for (int i = 0; i < 3; ++i) vp_eq(u(i) * n, v(i), "normalised-keeps-direction");
        vp_eq(u(0) * u(0) + u(1) * u(1) + u(2) * u(2), 1.0, "normalised-has-unit-length");
        vp_cover("normalised");
    }
}
CONTRACT(safe_normalise_4) {
    const Eigen::Matrix<double, 4, 1> v = vp_matrix<double, 4, 1>("v");
    double n2 = 0;
    for (int i = 0; i < 4; ++i) n2 += v(i) * v(i);
    vp_assume(n2 > 0.0);
    const Eigen::Matrix<double, 4, 1> u = eigen_ext::safe_normalise<double, 4>(v);
    for (int i = 0; i < 4; ++i) vp_eq(u(i) * std::sqrt(n2), v(i), "normalised-keeps-direction");
}
CONTRACT(safe_normalise_zero) {
    bool threw = false;
    try { eigen_ext::safe_normalise<double>(0.0, 0.0, 0.0); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "zero-vector-rejected");
    threw = false;
    try { eigen_ext::safe_normalise<float, 3>(Eigen::Vector3f(0, 0, 0)); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "zero-vector-rejected");
}
CONTRACT(cartesian_to_polar) {
    const double x = vp_real("x"), y = vp_real("y"), z = vp_real("z");
    bool threw = false;
    Eigen::Vector3d p(0, 0, 0);
    try { p = vp_bool("as_vector") ? eigen_ext::cartesian_to_polar<double>(Eigen::Vector3d(x, y, z)) : eigen_ext::cartesian_to_polar<double>(x, y, z); }
    catch (const std::runtime_error&) { threw = true; }
    if (threw) {
        vp_ensure(x * x + y * y == 0.0, "only-points-on-the-vertical-axis-rejected");
        vp_cover("rejected");
    } else {
        vp_ensure(!(x == 0.0 && y == 0.0), "points-on-the-vertical-axis-rejected");
        const double r = p(0), a = p(1), e = p(2);
        vp_eq(r * std::sin(e) * std::cos(a), x, "polar-to-cartesian-x");
        vp_eq(r * std::sin(e) * std::sin(a), y, "polar-to-cartesian-y");
        vp_eq(r * std::cos(e), z, "polar-to-cartesian-z");
        vp_ensure(r > 0.0, "polar-range-positive");
#ifndef VP_SYMBOLIC  // executed only: the range of the arc cosine is not axiomatised
        vp_ensure(a >= 0.0 && a < 6.2831853071795865, "azimuth-range");
        vp_ensure(e >= 0.0 && e <= 3.1415926535897932, "elevation-range");
#endif
        vp_cover("converted");
    }
}
