// Hyper-dual numbers: exact value, two first derivatives and the mixed second derivative of an expression.
#pragma once
#include <cmath>
struct HD { double v, a, b, ab; };
inline HD hd(double v) { return {v, 0, 0, 0}; }
inline HD operator+(HD x, HD y) { return {x.v + y.v, x.a + y.a, x.b + y.b, x.ab + y.ab}; }
inline HD operator-(HD x, HD y) { return {x.v - y.v, x.a - y.a, x.b - y.b, x.ab - y.ab}; }
inline HD operator*(HD x, HD y) { return {x.v * y.v, x.a * y.v + x.v * y.a, x.b * y.v + x.v * y.b, x.ab * y.v + x.a * y.b + x.b * y.a + x.v * y.ab}; }
// f(x) given f, f', f'' at x.v
inline HD hd_apply(HD x, double f, double f1, double f2) { return {f, f1 * x.a, f1 * x.b, f1 * x.ab + f2 * x.a * x.b}; }
inline HD hd_sqrt(HD x) { const double s = std::sqrt(x.v); return hd_apply(x, s, 0.5 / s, -0.25 / (s * x.v)); }
inline HD hd_sin(HD x) { const double s = std::sin(x.v), c = std::cos(x.v); return hd_apply(x, s, c, -s); }
inline HD hd_cos(HD x) { const double s = std::sin(x.v), c = std::cos(x.v); return hd_apply(x, c, -s, -c); }
inline HD hd_inv(HD x) { const double i = 1.0 / x.v; return hd_apply(x, i, -i * i, 2 * i * i * i); }
