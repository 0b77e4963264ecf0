// C16: window statistics and matching costs equal their defining sums over the window, and never read outside the images.
// @sources: serpent/src/front_end/stereo/window_functions.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp
// @libs: -lopencv_core
// @bounded: {"w":2,"h":2,"below1":0,"right1":0,"below2":0,"right2":0,"x1":1,"y1":1,"x2":1,"y2":0,"stepA":5,"stepB":4}
// @bounded: {"w":3,"h":1,"below1":0,"right1":0,"below2":0,"right2":0,"x1":1,"y1":1,"x2":0,"y2":1,"stepA":4,"stepB":7}
// @bounded: {"w":1,"h":3,"below1":0,"right1":0,"below2":0,"right2":0,"x1":1,"y1":0,"x2":0,"y2":1,"stepA":3,"stepB":1}
#include "vp_image.hpp"
#include <cmath>
#include <functional>
#include <stdexcept>
#include "serpent/front_end/stereo/window_functions.hpp"
#include "serpent/front_end/stereo/stereo_cost_functions.hpp"
// two images and a window that lies inside both
struct Pair {
    long w, h, x1, y1, x2, y2, r1, c1, r2, c2;
    VpImage a, b;
    cv::Point2i p, q;
    cv::Size win;
    // sizes are whatever the window needs plus any margin
    Pair() : w(vp_len("w", 1, 4)), h(vp_len("h", 1, 4)), x1(vp_len("x1", 0, 4)), y1(vp_len("y1", 0, 4)), x2(vp_len("x2", 0, 4)), y2(vp_len("y2", 0, 4)),
             r1(y1 + h + vp_len("below1", 0, 3)), c1(x1 + w + vp_len("right1", 0, 3)), r2(y2 + h + vp_len("below2", 0, 3)), c2(x2 + w + vp_len("right2", 0, 3)),
             a("A", r1, c1), b("B", r2, c2), p(int(x1), int(y1)), q(int(x2), int(y2)), win(int(w), int(h)) {}
    double A(long i, long j) const { return a(y1 + i, x1 + j); }
    double B(long i, long j) const { return b(y2 + i, x2 + j); }
};
template <typename F>
static double total(const Pair& s, F f) {
    double t = 0;
    for (long i = 0; i < s.h; ++i) for (long j = 0; j < s.w; ++j) t += f(i, j);
    return t;
}
static double sum1(const Pair& s) { return total(s, [&](long i, long j) { return s.A(i, j); }); }
static double sum2(const Pair& s) { return total(s, [&](long i, long j) { return s.B(i, j); }); }
static double squares1(const Pair& s) { return total(s, [&](long i, long j) { return s.A(i, j) * s.A(i, j); }); }
static double squares2(const Pair& s) { return total(s, [&](long i, long j) { return s.B(i, j) * s.B(i, j); }); }
CONTRACT(window_statistics) {
    const Pair s;
    vp_eq(serpent::window_sum(s.a.mat(), s.p, s.win), sum1(s), "window-sum");
    vp_eq(serpent::window_mean(s.a.mat(), s.p, s.win), sum1(s) / double(s.w * s.h), "window-mean");
    vp_eq(serpent::window_sum_squares(s.a.mat(), s.p, s.win), squares1(s), "window-sum-of-squares");
}
CONTRACT(window_inside) {
    const long r = vp_int("r", 0, 1000000), c = vp_int("c", 0, 1000000), x = vp_int("x", -1000000, 1000000), y = vp_int("y", -1000000, 1000000),
               w = vp_int("ww", 1, 1000000), h = vp_int("hh", 1, 1000000);
    const VpImageSize m(r, c);
    const bool in = serpent::window_within_image(m.mat(), cv::Point2i(int(x), int(y)), cv::Size(int(w), int(h)));
    const bool first = x >= 0 && x < c && y >= 0 && y < r, last = x + w - 1 < c && y + h - 1 < r;
    vp_ensure(in == (first && last), "inside-exactly-when-first-and-last-pixel-are");
}
// any window at the image border: inside means every pixel can be read
CONTRACT(window_border) {
    const long r = vp_int("r", 1, 6), c = vp_int("c", 1, 6), x = vp_int("x", -2, 7), y = vp_int("y", -2, 7), w = vp_int("ww", 1, 4), h = vp_int("hh", 1, 4);
    const VpImageSize m(r, c);
    const bool in = serpent::window_within_image(m.mat(), cv::Point2i(int(x), int(y)), cv::Size(int(w), int(h)));
    const long i = vp_any_index("i", h), j = vp_any_index("jj", w);
    if (in) vp_ensure(x + j >= 0 && x + j < c && y + i >= 0 && y + i < r, "every-pixel-of-an-inside-window-exists");
    else vp_cover("outside");
}
CONTRACT(absolute_differences) {
    const Pair s;
    vp_eq(serpent::sum_of_absolute_differences(s.a.mat(), s.b.mat(), s.p, s.q, s.win),
          total(s, [&](long i, long j) { return std::fabs(s.A(i, j) - s.B(i, j)); }), "sum-of-absolute-differences");
}
CONTRACT(squared_differences) {
    const Pair s;
    vp_eq(serpent::sum_of_squared_differences(s.a.mat(), s.b.mat(), s.p, s.q, s.win),
          total(s, [&](long i, long j) { const double d = s.A(i, j) - s.B(i, j); return d * d; }), "sum-of-squared-differences");
}
static double zero_mean(const Pair& s, double m1) {
    const double m2 = sum2(s) / double(s.w * s.h);
    return total(s, [&](long i, long j) { return std::fabs((s.A(i, j) - m1) - (s.B(i, j) - m2)); });
}
CONTRACT(zero_mean_differences_given) {
    const Pair s;
    const double m1 = vp_real("mean1");
    vp_eq(serpent::zero_mean_sum_of_absolute_differences(s.a.mat(), s.b.mat(), s.p, s.q, s.win, m1), zero_mean(s, m1), "zero-mean-differences");
}
CONTRACT(zero_mean_differences) {
    const Pair s;
    vp_eq(serpent::zero_mean_sum_of_absolute_differences(s.a.mat(), s.b.mat(), s.p, s.q, s.win), zero_mean(s, sum1(s) / double(s.w * s.h)), "zero-mean-differences");
}
static double scaled(const Pair& s, double m1) {
    const double m2 = sum2(s) / double(s.w * s.h), ratio = m1 / m2;
    return total(s, [&](long i, long j) { return std::fabs(s.A(i, j) - ratio * s.B(i, j)); });
}
CONTRACT(scaled_differences_given) {
    const Pair s;
    const double m1 = vp_real("mean1");
    vp_assume(sum2(s) > 0);
    vp_eq(serpent::locally_scaled_sum_of_absolute_differences(s.a.mat(), s.b.mat(), s.p, s.q, s.win, m1), scaled(s, m1), "locally-scaled-differences");
}
CONTRACT(scaled_differences) {
    const Pair s;
    vp_assume(sum2(s) > 0);
    vp_eq(serpent::locally_scaled_sum_of_absolute_differences(s.a.mat(), s.b.mat(), s.p, s.q, s.win), scaled(s, sum1(s) / double(s.w * s.h)), "locally-scaled-differences");
}
static double correlation(const Pair& s, double ss1) {
    return total(s, [&](long i, long j) { return s.A(i, j) * s.B(i, j); }) / std::sqrt(ss1 * squares2(s));
}
CONTRACT(cross_correlation_given) {
    const Pair s;
    const double ss1 = vp_real("ss1");
    vp_assume(squares2(s) > 0 && ss1 > 0);
    vp_eq(serpent::negative_normalised_cross_correlation(s.a.mat(), s.b.mat(), s.p, s.q, s.win, ss1), -correlation(s, ss1), "negative-correlation");
}
CONTRACT(cross_correlation) {
    const Pair s;
    vp_assume(squares2(s) > 0 && squares1(s) > 0);
    vp_eq(serpent::negative_normalised_cross_correlation(s.a.mat(), s.b.mat(), s.p, s.q, s.win), -correlation(s, squares1(s)), "negative-correlation");
}
// an image of another pixel type is refused by every cost
template <typename F>
static bool refused(F f) {
    try { f(); } catch (const std::runtime_error&) { return true; }
    return false;
}
static void refusal(int t1, int t2) {
    const VpImage a("A", 3, 3, t1), b("B", 3, 3, t2);
    const cv::Mat &A = a.mat(), &B = b.mat();
    const cv::Point2i p(0, 0);
    const cv::Size w(1, 1);
    vp_ensure(refused([&] { serpent::sum_of_absolute_differences(A, B, p, p, w); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::sum_of_squared_differences(A, B, p, p, w); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::zero_mean_sum_of_absolute_differences(A, B, p, p, w); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::zero_mean_sum_of_absolute_differences(A, B, p, p, w, 1.0); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::locally_scaled_sum_of_absolute_differences(A, B, p, p, w); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::locally_scaled_sum_of_absolute_differences(A, B, p, p, w, 1.0); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::negative_normalised_cross_correlation(A, B, p, p, w); }), "other-pixel-type-refused");
    vp_ensure(refused([&] { serpent::negative_normalised_cross_correlation(A, B, p, p, w, 1.0); }), "other-pixel-type-refused");
}
CONTRACT(other_types_refused) {
    const int types[6] = {CV_8UC3, CV_8S, CV_16U, CV_32F, CV_8UC2, CV_64F};
    const int t = types[vp_case("t", 0, 5)];
    if (vp_bool("first")) refusal(t, CV_8U);
    else refusal(CV_8U, t);
}
