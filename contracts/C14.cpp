// C14: match filters keep exactly the matches that satisfy the criterion, in order, and report their indices.
// @sources: serpent/src/front_end/stereo/match_filters.cpp
// @libs: -lopencv_core -lopencv_features2d
// @bounded: {"n":2,"n2":1,"nq":2,"nt":2}
// @bounded: {"n":3,"n2":2,"nq":1,"nt":3}
#include "vp.hpp"
#include "serpent/front_end/stereo/match_filters.hpp"
#include <cmath>
#include <stdexcept>
#include <vector>
using Matches = std::vector<cv::DMatch>;
using Points = std::vector<cv::KeyPoint>;
struct Kept { Matches matches; std::vector<std::size_t> indices; };
static Matches any_matches(long n, long qlo, long qhi, long tlo, long thi) {
    Matches m;
    for (long i = 0; i < n; ++i)
        m.push_back(cv::DMatch(int(vp_int_i("q", i, qlo, qhi)), int(vp_int_i("t", i, tlo, thi)), int(vp_int_i("img", i, 0, 100)), float(vp_real_i("dist", i))));
    return m;
}
static Points any_points(const char* x, const char* y, const char* s, long n) {
    Points p;
    for (long i = 0; i < n; ++i)
        p.push_back(cv::KeyPoint(float(vp_real_i(x, i)), float(vp_real_i(y, i)), float(vp_real_i(s, i))));
    return p;
}
static void same(const Matches& got, const std::vector<std::size_t>& ind, const Kept& want) {
    vp_ieq(long(got.size()), long(want.matches.size()), "number-of-kept-matches");
    vp_ieq(long(ind.size()), long(want.indices.size()), "number-of-indices");
    if (want.matches.size() == 0) return;
    vp_cover("some kept");
    const long j = vp_any_index("j", long(want.matches.size()));
    vp_ieq(got[j].queryIdx, want.matches[j].queryIdx, "kept-match-query");
    vp_ieq(got[j].trainIdx, want.matches[j].trainIdx, "kept-match-train");
    vp_ieq(got[j].imgIdx, want.matches[j].imgIdx, "kept-match-image");
    vp_eq(got[j].distance, want.matches[j].distance, "kept-match-distance");
    vp_ieq(long(ind[j]), long(want.indices[j]), "kept-match-index");
}
// descriptor distance at most the threshold
static Kept by_distance(const Matches& m, float threshold) {
    Kept k;
    for (std::size_t i = 0; i < m.size(); ++i)
        if (!(m[i].distance > threshold)) { k.matches.push_back(m[i]); k.indices.push_back(i); }
    return k;
}
static float thr(const char* n) { return float(vp_real(n)); }
CONTRACT(distance_filter_static) {
    const Matches m = any_matches(vp_len("n", 0, 12), 0, 100, 0, 100);
    std::vector<std::size_t> ind;
    for (long i = 0; i < vp_len("n2", 0, 4); ++i) ind.push_back(77);   // left over from an earlier call
    const Matches got = serpent::DistanceMatchFilter::filter(m, thr("thr"), ind);
    same(got, ind, by_distance(m, thr("thr")));
}
CONTRACT(distance_filter_object) {
    const Matches m = any_matches(vp_len("n", 0, 12), 0, 100, 0, 100);
    serpent::DistanceMatchFilter f(thr("thr"));
    same(f.filter(m), f.indices(), by_distance(m, thr("thr")));
    const Matches again = f.filter(m);
    same(again, f.indices(), by_distance(m, thr("thr")));
}
CONTRACT(distance_filter_created) {
    const Matches m = any_matches(vp_len("n", 0, 12), 0, 100, 0, 100);
    cv::Ptr<serpent::DistanceMatchFilter> f = serpent::DistanceMatchFilter::create(thr("thr"));
    const Matches got = f->filter(m);
    same(got, f->indices(), by_distance(m, thr("thr")));
}
// left point strictly right of the right point, rows at most the threshold apart
static Kept by_geometry(const Points& q, const Points& t, const Matches& m, float threshold) {
    Kept k;
    for (std::size_t i = 0; i < m.size(); ++i) {
        const cv::Point2f a = q[m[i].queryIdx].pt, b = t[m[i].trainIdx].pt;
        const float dy = a.y - b.y;
        if (a.x > b.x && dy <= threshold && -dy <= threshold) { k.matches.push_back(m[i]); k.indices.push_back(i); }
    }
    return k;
}
struct Scene {
    long nq, nt;
    Points q, t;
    Matches m;
    Scene() : nq(vp_len("nq", 1, 6)), nt(vp_len("nt", 1, 6)), q(any_points("qx", "qy", "qs", nq)), t(any_points("tx", "ty", "ts", nt)),
              m(any_matches(vp_len("n", 0, 12), 0, nq - 1, 0, nt - 1)) {}
};
CONTRACT(stereo_filter_static) {
    const Scene s;
    std::vector<std::size_t> ind;
    for (long i = 0; i < vp_len("n2", 0, 4); ++i) ind.push_back(77);
    const Matches got = serpent::StereoMatchFilter::filter(s.q, s.t, s.m, thr("thr"), ind);
    same(got, ind, by_geometry(s.q, s.t, s.m, thr("thr")));
}
CONTRACT(stereo_filter_object) {
    const Scene s;
    serpent::StereoMatchFilter f(thr("thr"));
    vp_eq(f.vertical_pixel_threshold(), thr("thr"), "threshold-stored");
    const Matches got = f.filter(s.q, s.t, s.m);
    same(got, f.indices(), by_geometry(s.q, s.t, s.m, thr("thr")));
    f.set_vertical_pixel_threshold(thr("thr2"));
    vp_eq(f.vertical_pixel_threshold(), thr("thr2"), "threshold-stored");
    const Matches again = f.filter(s.q, s.t, s.m);
    same(again, f.indices(), by_geometry(s.q, s.t, s.m, thr("thr2")));
}
CONTRACT(stereo_filter_created) {
    const Scene s;
    cv::Ptr<serpent::StereoMatchFilter> f = serpent::StereoMatchFilter::create(thr("thr"));
    const Matches got = f->filter(s.q, s.t, s.m);
    same(got, f->indices(), by_geometry(s.q, s.t, s.m, thr("thr")));
    vp_eq(serpent::StereoMatchFilter().vertical_pixel_threshold(), 1, "default-threshold-is-one-pixel");
}
// positive disparity and depth fx * baseline / disparity inside the closed interval
static Kept by_depth(const Points& q, const Points& t, const Matches& m, float fx, float b, float hi, float lo) {
    Kept k;
    const float c = fx * b;
    for (std::size_t i = 0; i < m.size(); ++i) {
        const float d = q[m[i].queryIdx].pt.x - t[m[i].trainIdx].pt.x;
        if (d > 0 && c / d >= lo && c / d <= hi) { k.matches.push_back(m[i]); k.indices.push_back(i); }
    }
    return k;
}
CONTRACT(depth_filter) {
    const Scene s;
    serpent::StereoDistanceFilter f(thr("fx"), thr("b"), thr("hi"), thr("lo"));
    const Matches got = f.filter(s.q, s.t, s.m);
    same(got, f.indices(), by_depth(s.q, s.t, s.m, thr("fx"), thr("b"), thr("hi"), thr("lo")));
    const Matches again = f.filter(s.q, s.t, s.m);
    same(again, f.indices(), by_depth(s.q, s.t, s.m, thr("fx"), thr("b"), thr("hi"), thr("lo")));
}
CONTRACT(default_thresholds) {
    const Scene s;
    const float top = std::numeric_limits<float>::max();
    serpent::DistanceMatchFilter d;
    const Matches a = d.filter(s.m);
    same(a, d.indices(), by_distance(s.m, top));
    serpent::StereoDistanceFilter f(thr("fx"), thr("b"));
    const Matches b = f.filter(s.q, s.t, s.m);
    same(b, f.indices(), by_depth(s.q, s.t, s.m, thr("fx"), thr("b"), top, 0));
}
CONTRACT(depth_filter_baseline) {
    const Scene s;
    serpent::StereoDistanceFilter f(thr("fx"), thr("b"), thr("hi"), thr("lo"));
    f.set_baseline(thr("b2"));
    const Matches got = f.filter(s.q, s.t, s.m);
    same(got, f.indices(), by_depth(s.q, s.t, s.m, thr("fx"), thr("b2"), thr("hi"), thr("lo")));
}
CONTRACT(depth_filter_fx) {
    const Scene s;
    serpent::StereoDistanceFilter f(thr("fx"), thr("b"), thr("hi"), thr("lo"));
    f.set_fx(thr("fx2"));
    const Matches got = f.filter(s.q, s.t, s.m);
    same(got, f.indices(), by_depth(s.q, s.t, s.m, thr("fx2"), thr("b"), thr("hi"), thr("lo")));
}
CONTRACT(depth_filter_created) {
    const Scene s;
    cv::Ptr<serpent::StereoDistanceFilter> f = serpent::StereoDistanceFilter::create(thr("fx"), thr("b"), thr("hi"), thr("lo"));
    const Matches got = f->filter(s.q, s.t, s.m);
    same(got, f->indices(), by_depth(s.q, s.t, s.m, thr("fx"), thr("b"), thr("hi"), thr("lo")));
}
// a match that refers to a missing keypoint is an error, never a read outside the keypoints
static bool missing(const Matches& m, long nq, long nt) {
    const long j = vp_any_index("bad", long(m.size()));
    return m[j].queryIdx < 0 || m[j].queryIdx >= nq || m[j].trainIdx < 0 || m[j].trainIdx >= nt;
}
CONTRACT(stereo_filter_missing_keypoint) {
    const long nq = vp_len("nq", 0, 6), nt = vp_len("nt", 0, 6);
    const Points q = any_points("qx", "qy", "qs", nq), t = any_points("tx", "ty", "ts", nt);
    const Matches m = any_matches(vp_len("n", 1, 8), -2, nq + 1, -2, nt + 1);
    vp_assume(missing(m, nq, nt));
    std::vector<std::size_t> ind;
    bool thrown = false;
    try { serpent::StereoMatchFilter::filter(q, t, m, thr("thr"), ind); } catch (const std::out_of_range&) { thrown = true; }
    vp_ensure(thrown, "missing-keypoint-is-out-of-range");
}
CONTRACT(depth_filter_missing_keypoint) {
    const long nq = vp_len("nq", 0, 6), nt = vp_len("nt", 0, 6);
    const Points q = any_points("qx", "qy", "qs", nq), t = any_points("tx", "ty", "ts", nt);
    const Matches m = any_matches(vp_len("n", 1, 8), -2, nq + 1, -2, nt + 1);
    vp_assume(missing(m, nq, nt));
    serpent::StereoDistanceFilter f(thr("fx"), thr("b"), thr("hi"), thr("lo"));
    bool thrown = false;
    try { f.filter(q, t, m); } catch (const std::out_of_range&) { thrown = true; }
    vp_ensure(thrown, "missing-keypoint-is-out-of-range");
}
