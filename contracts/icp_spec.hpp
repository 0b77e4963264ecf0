// Registration error of one correspondence and its derivatives, differentiated exactly from the definition.
#pragma once
#include "vp_eigen.hpp"
#include "vp_dual.hpp"
struct Hd3 { HD x, y, z; };
inline Hd3 hd_add(Hd3 a, Hd3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline Hd3 hd_sub(Hd3 a, Hd3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline Hd3 hd_scale(HD s, Hd3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline HD hd_dot(Hd3 a, Hd3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline Hd3 hd_cross(Hd3 a, Hd3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
// exp(r) p
inline Hd3 hd_rotate(Hd3 r, Hd3 p) {
    const HD a = hd_sqrt(hd_dot(r, r)), s = hd_sin(a), c = hd_cos(a), ia = hd_inv(a);
    return hd_add(hd_add(hd_scale(c, p), hd_scale(s * ia, hd_cross(r, p))), hd_scale((hd(1) - c) * ia * ia * hd_dot(r, p), r));
}
inline Hd3 hd_rotate_linearised(Hd3 r, Hd3 p) { return hd_add(p, hd_cross(r, p)); }
// half of the second derivative of F with respect to variables i and j of v = (r, t, p, q)
template <typename RotateFn>
inline double half_d2F(const double* v, const double* n, int i, int j, RotateFn rotate) {
    HD x[12];
    for (int k = 0; k < 12; ++k) x[k] = HD{v[k], k == i ? 1.0 : 0.0, k == j ? 1.0 : 0.0, 0.0};
    const Hd3 r{x[0], x[1], x[2]}, t{x[3], x[4], x[5]}, p{x[6], x[7], x[8]}, q{x[9], x[10], x[11]};
    const Hd3 e = hd_sub(hd_add(rotate(r, p), t), q);
    if (!n) return 0.5 * hd_dot(e, e).ab;
    const HD d = hd(n[0]) * e.x + hd(n[1]) * e.y + hd(n[2]) * e.z;
    return 0.5 * (d * d).ab;
}
