// C17: stereo keypoint matching finds the first minimum-cost admissible window and applies the configured filter.
// @sources: serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp serpent/src/front_end/stereo/window_functions.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp
// @libs: -lopencv_core
// @bounded: {"rows":3,"cols":5,"n":2,"m":2,"hw":1,"hh":0,"stepA":8,"stepB":8,"below1":0,"right1":0,"below2":0,"right2":0,"x1":1,"y1":1,"x2":1,"y2":0}
// @bounded: {"rows":4,"cols":4,"n":3,"m":3,"hw":0,"hh":1,"stepA":5,"stepB":4,"below1":0,"right1":1,"below2":1,"right2":0,"x1":0,"y1":1,"x2":2,"y2":0}
#include "vp_image.hpp"
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <vector>
#include "serpent/front_end/stereo/stereo_keypoint_matcher.hpp"
#include "serpent/front_end/stereo/window_functions.hpp"
using serpent::StereoKeyPointMatcher;
using MF = StereoKeyPointMatcher::MatchingFilter;
static const double TOP = std::numeric_limits<double>::max();
// ---------------------------------------------------------------- search over an arbitrary cost
// the two images, of any common size, and what the matcher may do with the cost function
static const cv::Mat *left_, *right_;
static bool in_right_;
static long y0_, win_w_, win_h_;
struct Abstract : StereoKeyPointMatcher {
    using StereoKeyPointMatcher::StereoKeyPointMatcher;
    static double cost(const cv::Mat& ref, const cv::Mat& other, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) {
        vp_ensure(&ref == (in_right_ ? left_ : right_) && &other == (in_right_ ? right_ : left_), "cost-compares-the-reference-image-with-the-other");
        vp_ensure(w.width == win_w_ && w.height == win_h_, "cost-over-the-configured-window");
        vp_ensure(p.x >= 0 && p.y >= 0 && p.x + w.width <= ref.cols && p.y + w.height <= ref.rows, "reference-window-inside-the-image");
        vp_ensure(q.x >= 0 && q.y >= 0 && q.x + w.width <= other.cols && q.y + w.height <= other.rows, "compared-window-inside-the-image");
        vp_ensure(p.y == y0_ && q.y == y0_, "windows-on-the-row-of-the-keypoint");
        return vp_real_near_ij("cost", p.x, q.x, 0.5, 9);
    }
    serpent::MatchingCostFunction generate_cost_function(const cv::Mat& ref, const cv::Point2i& p) const override {
        vp_ensure(&ref == (in_right_ ? left_ : right_), "statistics-of-the-reference-image");
        return &cost;
    }
};
static double C(long p, long q) { return vp_real_near_ij("cost", p, q, 0.5, 9); }
struct Scene {
    long rows, cols, w, h;
    VpImageSize left, right;
    float x, y;
    bool in_right;
    long x0, y0;      // top left of the window around the keypoint
    Scene() : rows(vp_len("rows", 1, 6)), cols(vp_len("cols", 1, 8)), w(2 * vp_len("hw", 0, 1) + 1), h(2 * vp_len("hh", 0, 1) + 1), left(rows, cols), right(rows, cols),
              x(float(vp_real_near("x", -1, 9))), y(float(vp_real_near("y", -1, 7))), in_right(vp_bool("in_right")),
              x0(long(std::floor(x)) - (w - 1) / 2), y0(long(std::floor(y)) - (h - 1) / 2) {
        vp_assume(x > -1e6f && x < 1e6f && y > -1e6f && y < 1e6f);
        left_ = &left.mat();
        right_ = &right.mat();
        in_right_ = in_right;
        y0_ = y0;
        win_w_ = w;
        win_h_ = h;
    }
    cv::KeyPoint keypoint() const { return cv::KeyPoint(x, y, float(vp_real("size")), float(vp_real("angle")), float(vp_real("response")), int(vp_int("octave", 0, 9)), int(vp_int("id", 0, 99))); }
    cv::Size window() const { return cv::Size(int(w), int(h)); }
    bool inside() const { return x0 >= 0 && y0 >= 0 && x0 + w <= cols && y0 + h <= rows; }
    // windows to compare with: from the same column towards smaller columns (other image is the right one) or larger ones
    long candidates() const { return in_right ? x0 + 1 : cols - w - x0 + 1; }
    long candidate(long k) const { return in_right ? x0 - k : x0 + k; }
};
struct Best { double cost, second; long at; };
static Best best(const Scene& s) {
    Best b{TOP, TOP, -1};
    for (long k = 0; k < s.candidates(); ++k) {
        const double c = C(s.x0, s.candidate(k));
        if (c < b.cost) { b.second = b.cost; b.cost = c; b.at = s.candidate(k); }
        else if (c < b.second) b.second = c;
    }
    return b;
}
static void bounded_costs(const Best& b) { vp_assume(b.at >= 0); }
static void middle_of(const cv::KeyPoint& got, const Scene& s, long at) {
    vp_eqf(got.pt.x, at + s.w / 2.0, "middle-of-the-best-window");
    vp_eqf(got.pt.y, s.y0 + s.h / 2.0, "same-row");
    vp_eq(got.size, float(vp_real("size")), "other-attributes-kept");
    vp_eq(got.angle, float(vp_real("angle")), "other-attributes-kept");
    vp_eq(got.response, float(vp_real("response")), "other-attributes-kept");
    vp_ieq(got.octave, vp_int("octave", 0, 9), "other-attributes-kept");
    vp_ieq(got.class_id, vp_int("id", 0, 99), "other-attributes-kept");
}
CONTRACT(window_outside) {
    const Scene s;
    vp_assume(!s.inside());
    const MF f[3] = {MF::UNIDIRECTIONAL, MF::BIDIRECTIONAL, MF::RATIO_TEST};
    const Abstract m(s.window(), 1.f, f[vp_case("f", 0, 2)], 0.5);
    double cost = -5;
    bool matched = true;
    m.keypoint_in_other_image(s.keypoint(), s.left.mat(), s.right.mat(), s.in_right, cost, matched);
    vp_ensure(!matched, "keypoint-without-window-is-unmatched");
    vp_ensure(cost == TOP, "keypoint-without-window-has-maximal-cost");
    cost = -5;
    std::vector<cv::KeyPoint> none;
    vp_ieq(m.keypoint_index_in_other_image(s.keypoint(), none, s.left.mat(), s.right.mat(), s.in_right, cost), -1, "keypoint-without-window-is-unmatched");
    vp_ensure(cost == TOP, "keypoint-without-window-has-maximal-cost");
}
CONTRACT(scan_unidirectional) {
    const Scene s;
    vp_assume(s.inside());
    const Abstract m(s.window());
    double cost = -5;
    bool matched = false;
    const cv::KeyPoint got = m.keypoint_in_other_image(s.keypoint(), s.left.mat(), s.right.mat(), s.in_right, cost, matched);
    const Best b = best(s);
    bounded_costs(b);
    vp_ensure(matched, "matched");
    vp_eq(cost, b.cost, "lowest-cost");
    middle_of(got, s, b.at);
}
CONTRACT(scan_ratio) {
    const Scene s;
    vp_assume(s.inside());
    const double ratio = vp_real_near("ratio", 0, 1);
    vp_assume(ratio > 0 && ratio < 1);
    const Abstract m(s.window(), 1.f, MF::RATIO_TEST, ratio);
    double cost = -5;
    bool matched = false;
    const cv::KeyPoint got = m.keypoint_in_other_image(s.keypoint(), s.left.mat(), s.right.mat(), s.in_right, cost, matched);
    const Best b = best(s);
    bounded_costs(b);
    vp_assume(b.cost > 0 && b.second > 0 && b.cost != ratio * b.second);
    vp_ensure(matched == (b.cost < ratio * b.second), "matched-exactly-when-well-below-the-second-best");
    vp_eq(cost, b.cost, "lowest-cost");
    middle_of(got, s, b.at);
}
CONTRACT(scan_bidirectional) {
    const Scene s;
    vp_assume(s.inside());
    const Abstract m(s.window(), 1.f, MF::BIDIRECTIONAL);
    double cost = -5;
    bool matched = false;
    const cv::KeyPoint got = m.keypoint_in_other_image(s.keypoint(), s.left.mat(), s.right.mat(), s.in_right, cost, matched);
    const Best b = best(s);
    bounded_costs(b);
    // the way back: windows of the reference image from the column of the match, in the opposite direction
    bool better = false;
    const long n = s.in_right ? s.cols - s.w - b.at + 1 : b.at + 1;
    for (long k = 0; k < n; ++k) {
        const long p = s.in_right ? b.at + k : b.at - k;
        if (C(p, b.at) < b.cost) { better = true; break; }
    }
    vp_ensure(matched == !better, "matched-exactly-when-the-way-back-finds-no-better-window");
    vp_eq(cost, b.cost, "lowest-cost");
    middle_of(got, s, b.at);
}
// ---------------------------------------------------------------- choice among given keypoints
static long rx_, ry_;
struct AbstractChoice : StereoKeyPointMatcher {
    using StereoKeyPointMatcher::StereoKeyPointMatcher;
    static double cost(const cv::Mat& ref, const cv::Mat& other, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) {
        vp_ensure(&ref == (in_right_ ? left_ : right_) && &other == (in_right_ ? right_ : left_), "cost-compares-the-reference-image-with-the-other");
        vp_ensure(w.width == win_w_ && w.height == win_h_, "cost-over-the-configured-window");
        vp_ensure(p.x == rx_ && p.y == ry_, "reference-window-is-that-of-the-keypoint");
        vp_ensure(q.x >= 0 && q.y >= 0 && q.x + w.width <= other.cols && q.y + w.height <= other.rows, "compared-window-inside-the-image");
        return vp_real_near_ij("cost", q.x, q.y, 0.5, 9);
    }
    serpent::MatchingCostFunction generate_cost_function(const cv::Mat& ref, const cv::Point2i& p) const override {
        vp_ensure(&ref == (in_right_ ? left_ : right_), "statistics-of-the-reference-image");
        vp_ensure(p.x == rx_ && p.y == ry_, "statistics-of-the-window-of-the-keypoint");
        return &cost;
    }
};
static float px(long i) { return float(vp_real_near_i("px", i, -1, 9)); }
static float py(long i) { return float(vp_real_near_i("py", i, -1, 7)); }
static std::vector<cv::KeyPoint> given(long n) {
    std::vector<cv::KeyPoint> v;
    for (long i = 0; i < n; ++i) v.push_back(cv::KeyPoint(px(i), py(i), 1.f));
    return v;
}
static Best choose(const Scene& s, long n, float threshold) {
    Best b{TOP, TOP, -1};
    for (long i = 0; i < n; ++i) {
        const float dy = py(i) - s.y;
        const long qx = long(std::floor(px(i))) - (s.w - 1) / 2, qy = long(std::floor(py(i))) - (s.h - 1) / 2;
        const bool in = qx >= 0 && qy >= 0 && qx + s.w <= s.cols && qy + s.h <= s.rows;
        const bool side = s.in_right ? px(i) <= s.x : px(i) >= s.x;
        if (!(dy <= threshold && -dy <= threshold && side && in)) continue;
        const double c = vp_real_near_ij("cost", qx, qy, 0.5, 9);
        if (c < b.cost) { b.second = b.cost; b.cost = c; b.at = i; }
        else if (c < b.second) b.second = c;
    }
    return b;
}
static Best choice(const Scene& s, const AbstractChoice& m, float threshold, long n, double& cost, long& index) {
    rx_ = s.x0;
    ry_ = s.y0;
    index = m.keypoint_index_in_other_image(s.keypoint(), given(n), s.left.mat(), s.right.mat(), s.in_right, cost);
    return choose(s, n, threshold);
}
CONTRACT(choice_by_cost) {
    const Scene s;
    vp_assume(s.inside());
    const float threshold = float(vp_real_near("threshold", 0, 3));
    double cost = -5;
    long index = -7;
    const Best b = choice(s, AbstractChoice(s.window(), threshold, vp_bool("both") ? MF::BIDIRECTIONAL : MF::UNIDIRECTIONAL), threshold, vp_len("n", 0, 6), cost, index);
    vp_ieq(index, b.at, "first-admissible-keypoint-of-lowest-cost");
    vp_eq(cost / TOP, b.cost / TOP, "lowest-cost");
    if (b.at >= 0) vp_eq(cost, b.cost, "lowest-cost");
}
CONTRACT(choice_by_ratio) {
    const Scene s;
    vp_assume(s.inside());
    const float threshold = float(vp_real_near("threshold", 0, 3));
    const double ratio = vp_real_near("ratio", 0, 1);
    vp_assume(ratio > 0 && ratio < 1);
    double cost = -5;
    long index = -7;
    const Best b = choice(s, AbstractChoice(s.window(), threshold, MF::RATIO_TEST, ratio), threshold, vp_len("n", 0, 6), cost, index);
    vp_assume(b.cost > 0 && b.second > 0 && b.cost != ratio * b.second);
    vp_ieq(index, b.at >= 0 && b.cost < ratio * b.second ? b.at : -1, "first-keypoint-of-lowest-cost-if-well-below-the-second-best");
    if (b.at >= 0) vp_eq(cost, b.cost, "lowest-cost");
}
// ---------------------------------------------------------------- lists of keypoints
static long nl_, nr_;
struct AbstractList : StereoKeyPointMatcher {
    using StereoKeyPointMatcher::StereoKeyPointMatcher;
    serpent::MatchingCostFunction generate_cost_function(const cv::Mat&, const cv::Point2i&) const override { return serpent::MatchingCostFunction(); }
    // left keypoints are marked 2 i, right ones 2 i + 1
    int keypoint_index_in_other_image(const cv::KeyPoint& k, const std::vector<cv::KeyPoint>& others, const cv::Mat& l, const cv::Mat& r, const bool in_right, double& cost) const override {
        vp_ensure(&l == left_ && &r == right_, "images-passed-on");
        vp_ensure(k.class_id % 2 == (in_right ? 0 : 1), "keypoint-of-the-image-searched-from");
        vp_ensure(long(others.size()) == (in_right ? nr_ : nl_), "keypoints-of-the-image-searched");
        if (others.size() > 0) vp_ensure(others[0].class_id == (in_right ? 1 : 0), "keypoints-of-the-image-searched");
        const long i = k.class_id / 2;
        cost = vp_real_i(in_right ? "cost right" : "cost left", i);
        return int(vp_int_i(in_right ? "in right" : "in left", i, -1, (in_right ? nr_ : nl_) - 1));
    }
    cv::KeyPoint keypoint_in_other_image(const cv::KeyPoint& k, const cv::Mat& l, const cv::Mat& r, const bool in_right, double& cost, bool& matched) const override {
        vp_ensure(&l == left_ && &r == right_ && in_right == in_right_, "images-and-direction-passed-on");
        cost = vp_real_i("cost", k.class_id);
        matched = vp_bool_i("matched", k.class_id);
        return cv::KeyPoint(float(vp_real_i("found x", k.class_id)), float(vp_real_i("found y", k.class_id)), 1.f);
    }
};
static std::vector<cv::KeyPoint> marked(long n, int step, int first) {
    std::vector<cv::KeyPoint> v;
    for (long i = 0; i < n; ++i) v.push_back(cv::KeyPoint(0.f, 0.f, 1.f, -1.f, 0.f, 0, int(i) * step + first));
    return v;
}
CONTRACT(indices_of_all) {
    const Scene s;
    nl_ = vp_len("n", 0, 6);
    nr_ = vp_len("m", 0, 6);
    const std::vector<cv::KeyPoint> l = marked(nl_, 2, 0), r = marked(nr_, 2, 1);
    const bool both = vp_bool("both");
    const AbstractList m(s.window(), 1.f, both ? MF::BIDIRECTIONAL : MF::UNIDIRECTIONAL);
    std::vector<double> costs;
    const std::vector<int> got = m.keypoint_indices_in_other_image(l, r, s.left.mat(), s.right.mat(), s.in_right, costs);
    const long n = s.in_right ? nl_ : nr_, k = s.in_right ? nr_ : nl_;
    vp_ieq(long(got.size()), n, "one-result-per-keypoint");
    vp_ieq(long(costs.size()), n, "one-cost-per-keypoint");
    if (n == 0) return;
    const long i = vp_any_index("i", n), there = vp_int_i(s.in_right ? "in right" : "in left", i, -1, k - 1);
    vp_eq(costs[i], vp_real_i(s.in_right ? "cost right" : "cost left", i), "cost-of-the-keypoint");
    if (there == -1) vp_ieq(got[i], -1, "unmatched-stays-unmatched");
    else if (!both) vp_ieq(got[i], there, "match-reported");
    else vp_ieq(got[i], vp_int_i(s.in_right ? "in left" : "in right", there, -1, n - 1) == i ? there : -1, "match-reported-exactly-when-mutual");
}
CONTRACT(keypoints_of_all) {
    const Scene s;
    const long n = vp_len("n", 0, 6);
    const AbstractList m(s.window());
    std::vector<double> costs;
    std::vector<bool> matched;
    const std::vector<cv::KeyPoint> got = m.keypoints_in_other_image(marked(n, 1, 0), s.left.mat(), s.right.mat(), s.in_right, costs, matched);
    vp_ieq(long(got.size()), n, "one-result-per-keypoint");
    vp_ieq(long(costs.size()), n, "one-cost-per-keypoint");
    vp_ieq(long(matched.size()), n, "one-flag-per-keypoint");
    if (n == 0) return;
    const long i = vp_any_index("i", n);
    vp_eq(got[i].pt.x, float(vp_real_i("found x", i)), "keypoint-of-the-keypoint");
    vp_eq(got[i].pt.y, float(vp_real_i("found y", i)), "keypoint-of-the-keypoint");
    vp_eq(costs[i], vp_real_i("cost", i), "cost-of-the-keypoint");
    vp_ensure(matched[i] == vp_bool_i("matched", i), "flag-of-the-keypoint");
}
CONTRACT(sizes_must_agree) {
    const long r1 = vp_int("r1", 0, 1000000), c1 = vp_int("c1", 0, 1000000), r2 = vp_int("r2", 0, 1000000), c2 = vp_int("c2", 0, 1000000);
    vp_assume(r1 != r2 || c1 != c2);
    const VpImageSize a(r1, c1), b(r2, c2);
    const Abstract m(cv::Size(3, 3));
    const cv::KeyPoint kp(float(vp_real("x")), float(vp_real("y")), 1.f);
    double cost;
    bool matched, threw = false;
    try { m.keypoint_in_other_image(kp, a.mat(), b.mat(), vp_bool("in_right"), cost, matched); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "images-of-different-size-refused");
    threw = false;
    const std::vector<cv::KeyPoint> none;
    try { m.keypoint_index_in_other_image(kp, none, a.mat(), b.mat(), vp_bool("in_right"), cost); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "images-of-different-size-refused");
}
CONTRACT(construction) {
    const long w = vp_int("w", -1000, 1000), h = vp_int("h", -1000, 1000);
    const double ratio = vp_real_near("ratio", 0, 1);
    bool threw = false;
    try { const Abstract m(cv::Size(int(w), int(h)), 1.f, MF::RATIO_TEST, ratio); } catch (const std::runtime_error&) { threw = true; }
    const bool good = w > 0 && h > 0 && w % 2 == 1 && h % 2 == 1 && ratio > 0 && ratio < 1;
    vp_ensure(threw == !good, "only-positive-odd-windows-and-ratios-between-zero-and-one");
}
// ---------------------------------------------------------------- the cost each matcher searches with
struct Pair {
    long w, h, x1, y1, x2, y2;
    VpImage a, b;
    cv::Point2i p, q;
    cv::Size win;
    Pair() : w(2 * vp_len("hw", 0, 1) + 1), h(2 * vp_len("hh", 0, 1) + 1), x1(vp_len("x1", 0, 4)), y1(vp_len("y1", 0, 4)), x2(vp_len("x2", 0, 4)), y2(vp_len("y2", 0, 4)),
             a("A", y1 + h + vp_len("below1", 0, 3), x1 + w + vp_len("right1", 0, 3)), b("B", y2 + h + vp_len("below2", 0, 3), x2 + w + vp_len("right2", 0, 3)),
             p(int(x1), int(y1)), q(int(x2), int(y2)), win(int(w), int(h)) {}
    double A(long i, long j) const { return a(y1 + i, x1 + j); }
    double B(long i, long j) const { return b(y2 + i, x2 + j); }
};
template <typename F>
static double total(const Pair& s, F f) {
    double t = 0;
    for (long i = 0; i < s.h; ++i) for (long j = 0; j < s.w; ++j) t += f(i, j);
    return t;
}
static double sum1(const Pair& s) { return total(s, [&](long i, long j) { return s.A(i, j); }); }
static double sum2(const Pair& s) { return total(s, [&](long i, long j) { return s.B(i, j); }); }
template <typename M>
struct Open : M {
    using M::M;
    using M::generate_cost_function;
};
template <typename M>
static double cost_of(const Pair& s) {
    const Open<M> m(s.win, 1.f, MF::UNIDIRECTIONAL, 0.5);
    return m.generate_cost_function(s.a.mat(), s.p)(s.a.mat(), s.b.mat(), s.p, s.q, s.win);
}
CONTRACT(absolute_matcher_cost) {
    const Pair s;
    vp_eq(cost_of<serpent::SADStereoKeyPointMatcher>(s), total(s, [&](long i, long j) { return std::fabs(s.A(i, j) - s.B(i, j)); }), "sum-of-absolute-differences");
}
CONTRACT(squared_matcher_cost) {
    const Pair s;
    vp_eq(cost_of<serpent::SSDStereoKeyPointMatcher>(s), total(s, [&](long i, long j) { const double d = s.A(i, j) - s.B(i, j); return d * d; }), "sum-of-squared-differences");
}
CONTRACT(zero_mean_matcher_cost) {
    const Pair s;
    const double m1 = sum1(s) / double(s.w * s.h), m2 = sum2(s) / double(s.w * s.h);
    vp_eq(cost_of<serpent::ZeroMeanSADStereoKeyPointMatcher>(s), total(s, [&](long i, long j) { return std::fabs((s.A(i, j) - m1) - (s.B(i, j) - m2)); }), "zero-mean-differences");
}
CONTRACT(scaled_matcher_cost) {
    const Pair s;
    vp_assume(sum2(s) > 0);
    const double m1 = sum1(s) / double(s.w * s.h), m2 = sum2(s) / double(s.w * s.h), ratio = m1 / m2;
    vp_eq(cost_of<serpent::LocallyScaledSADStereoKeyPointMatcher>(s), total(s, [&](long i, long j) { return std::fabs(s.A(i, j) - ratio * s.B(i, j)); }), "locally-scaled-differences");
}
CONTRACT(correlation_matcher_cost) {
    const Pair s;
    const double ss1 = total(s, [&](long i, long j) { return s.A(i, j) * s.A(i, j); }), ss2 = total(s, [&](long i, long j) { return s.B(i, j) * s.B(i, j); });
    vp_assume(ss1 > 0 && ss2 > 0);
    vp_eq(cost_of<serpent::NCCStereoKeyPointMatcher>(s), -total(s, [&](long i, long j) { return s.A(i, j) * s.B(i, j); }) / std::sqrt(ss1 * ss2), "negative-correlation");
}
// a matcher made by create() has the window, threshold, filter and ratio asked for
template <typename M>
static void made() {
    const VpImage a("A", 1, 3), b("B", 1, 3);
    for (long j = 0; j < 3; ++j) vp_assume(a(0, j) > 0 && b(0, j) > 0);
    const float threshold = float(vp_real_near("threshold", 0, 3));
    const double ratio = vp_real_near("ratio", 0, 1);
    vp_assume(ratio > 0 && ratio < 1);
    const MF f[3] = {MF::UNIDIRECTIONAL, MF::BIDIRECTIONAL, MF::RATIO_TEST};
    const MF filter = f[vp_case("f", 0, 2)];
    const cv::Size win(vp_case("wide", 0, 1) ? 3 : 1, 1);
    const cv::Ptr<M> created = M::create(win, threshold, filter, ratio);
    const Open<M> direct(win, threshold, filter, ratio);
    const cv::KeyPoint k(1.5f, 0.5f, 1.f);
    const float y = float(vp_real_near("y", 0, 1));
    vp_assume(y >= 0 && y < 1);
    const std::vector<cv::KeyPoint> others = {cv::KeyPoint(0.5f, 0.25f, 1.f), cv::KeyPoint(1.f, y, 1.f)};
    double c1 = -5, c2 = -5;
    const int i1 = created->keypoint_index_in_other_image(k, others, a.mat(), b.mat(), true, c1);
    const int i2 = direct.keypoint_index_in_other_image(k, others, a.mat(), b.mat(), true, c2);
    vp_ieq(i1, i2, "created-as-asked-for");
    vp_ensure(c1 == c2, "created-as-asked-for");
    bool m1 = false, m2 = false;
    created->keypoint_in_other_image(k, a.mat(), b.mat(), true, c1, m1);
    direct.keypoint_in_other_image(k, a.mat(), b.mat(), true, c2, m2);
    vp_ensure(m1 == m2 && c1 == c2, "created-as-asked-for");
}
CONTRACT(created_absolute) { made<serpent::SADStereoKeyPointMatcher>(); }
CONTRACT(created_squared) { made<serpent::SSDStereoKeyPointMatcher>(); }
CONTRACT(created_zero_mean) { made<serpent::ZeroMeanSADStereoKeyPointMatcher>(); }
CONTRACT(created_scaled) { made<serpent::LocallyScaledSADStereoKeyPointMatcher>(); }
CONTRACT(created_correlation) { made<serpent::NCCStereoKeyPointMatcher>(); }
