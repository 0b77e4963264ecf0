// C29: stereo features keep their identity from frame to frame.
// @sources: serpent/src/front_end/stereo/stereo_feature_tracker.cpp serpent/src/front_end/stereo/match_filters.cpp serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp serpent/src/front_end/stereo/window_functions.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp
// @flags: -Icontracts/stubs
// @libs: -lopencv_core -lopencv_features2d -lopencv_imgproc -lopencv_video
// @assumed: opencv.cpp
// @bounded: {"n":2,"kl":1,"kr":0}
// @bounded: {"n":1,"kl":1,"kr":1}
// @bounded: {"n":0,"kl":2,"kr":1}
// @boundedonly: process_next process_depth statistics
#include "vp.hpp"
#include <array>
#include <cmath>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include <opencv2/features2d.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/video/tracking.hpp>
#include <ros/ros.h>
#define private public
#include "serpent/front_end/stereo/stereo_feature_tracker.hpp"
#undef private
using Tracker = serpent::StereoFeatureTracker;
using Points = std::vector<cv::KeyPoint>;
static const char* X[2] = {"xl", "xr"};      // tracked positions
static const char* Y[2] = {"yl", "yr"};
static const char* OX[2] = {"oxl", "oxr"};   // positions in the previous images
static const char* OY[2] = {"oyl", "oyr"};
static const char* S[2] = {"followed_l", "followed_r"};
static const char* NX[2] = {"nxl", "nxr"};   // newly detected
static const char* NY[2] = {"nyl", "nyr"};
static const char* NS[2] = {"nsl", "nsr"};
static const char* OS[2] = {"osl", "osr"};
static float f(const char* name, long i, double lo, double hi) { return float(vp_real_near_i(name, i, lo, hi)); }
static cv::KeyPoint previous(int lr, long i) { return cv::KeyPoint(f(OX[lr], i, 0, 30), f(OY[lr], i, 0, 9), f(OS[lr], i, 0, 9), f("angle", i, 0, 360), f("response", i, 0, 1), int(vp_int_i("octave", i, 0, 9)), int(i)); }
static cv::KeyPoint detected(int lr, long i) { return cv::KeyPoint(f(NX[lr], i, 0, 30), f(NY[lr], i, 0, 9), f(NS[lr], i, 0, 9), f("new angle", i, 0, 360), f("new response", i, 0, 1), int(vp_int_i("new octave", i, 0, 9)), int(i)); }
static cv::KeyPoint moved(int lr, long i) { cv::KeyPoint k = previous(lr, i); k.pt = cv::Point2f(f(X[lr], i, 0, 30), f(Y[lr], i, 0, 9)); return k; }
static const unsigned char* image_data(const cv::_InputArray& a) { return static_cast<const cv::Mat*>(a.getObj())->data; }
static int last_id, frame_;
struct Images {
    cv::Mat old[2], now[2];
    long rows, cols;
    static void shape(cv::Mat& m, long r, long c, unsigned char* at) {
        m.flags = cv::Mat::MAGIC_VAL | CV_8U;
        m.dims = 2; m.rows = int(r); m.cols = int(c);
        m.data = at;
        m.step.buf[0] = std::size_t(c); m.step.buf[1] = 1;
    }
};
static unsigned char bytes[4];
static Images* im;
static long count_[2];
static cv::Rect roi_;
// the mask selects exactly the region of interest, everything without one
static void check_mask(const cv::_InputArray& mask) {
    const cv::Mat m = mask.getMat();
    if (roi_ == cv::Rect()) { vp_ensure(m.empty(), "no-mask-without-region-of-interest"); return; }
    vp_ensure(m.rows == im->now[0].rows && m.cols == im->now[0].cols && m.type() == CV_8U, "mask-of-the-size-of-the-image");
    for (int r = 0; r < m.rows; ++r)
        for (int c = 0; c < m.cols; ++c) vp_ensure((m.at<unsigned char>(r, c) != 0) == roi_.contains(cv::Point(c, r)), "features-only-detected-in-the-region-of-interest");
}
struct Detector : cv::Feature2D {
    void detect(cv::InputArray image, std::vector<cv::KeyPoint>& k, cv::InputArray mask) override {
        const int lr = image_data(image) == im->now[1].data;
        vp_ensure(image_data(image) == im->now[lr].data, "features-detected-in-the-new-images");
        if (vp_native()) check_mask(mask);
        for (long i = 0; i < count_[lr]; ++i) k.push_back(detected(lr, i));
    }
};
struct Flow : cv::SparseOpticalFlow {
    std::vector<unsigned char> status[2];
    std::vector<cv::Point2f> points[2];
    long n;
    void calc(cv::InputArray before, cv::InputArray after, cv::InputArray from, cv::InputOutputArray to, cv::OutputArray st, cv::OutputArray) override {
        const int lr = image_data(before) == im->old[1].data;
        vp_ensure(image_data(before) == im->old[lr].data, "followed-from-the-previous-image");
        vp_ensure(image_data(after) == im->now[lr].data, "followed-to-the-new-image-of-the-same-side");
        const cv::Mat& p = *static_cast<const cv::Mat*>(from.getObj());
        const long j = vp_any_index("followed", n);
        vp_eqf(p.at<cv::Point2f>(int(j)).x, previous(lr, j).pt.x, "all-previous-features-followed");
        vp_eqf(p.at<cv::Point2f>(int(j)).y, previous(lr, j).pt.y, "all-previous-features-followed");
        for (long i = 0; i < n; ++i) {
            status[lr].push_back(vp_bool_i(S[lr], i) ? 1 : 0);
            points[lr].push_back(moved(lr, i).pt);
        }
        set(to, CV_32FC2, points[lr].data(), 8);
        set(st, CV_8U, status[lr].data(), 1);
    }
    void set(const cv::_OutputArray& out, int type, void* data, std::size_t element) {
        cv::Mat& m = *static_cast<cv::Mat*>(out.getObj());
        m.flags = cv::Mat::MAGIC_VAL | cv::Mat::CONTINUOUS_FLAG | type;
        m.dims = 2; m.rows = int(n); m.cols = 1;
        m.data = static_cast<unsigned char*>(data);
        m.step.buf[0] = element; m.step.buf[1] = element;
    }
};
struct Matcher : serpent::StereoKeyPointMatcher {
    Matcher() : StereoKeyPointMatcher(cv::Size(1, 1), 1.0f) {}
    serpent::MatchingCostFunction generate_cost_function(const cv::Mat&, const cv::Point2i&) const override { throw std::runtime_error("not used"); }
    // the match of a feature, an arbitrary one (C17)
    int keypoint_index_in_other_image(const cv::KeyPoint& k, const std::vector<cv::KeyPoint>& others, const cv::Mat& left, const cv::Mat& right, const bool in_right, double& cost) const override {
        vp_ensure(left.data == im->now[0].data && right.data == im->now[1].data && in_right, "new-features-matched-in-the-right-image");
        cost = vp_real_near_i("cost", k.class_id, 0, 2);
        const long r = vp_int_i("match", k.class_id, -1, vp_native() ? 5 : 1000000);
        return r < long(others.size()) ? int(r) : -1;
    }
};
static bool near(const cv::KeyPoint& a, const cv::KeyPoint& b, float d) {
    const double x = a.pt.x - b.pt.x, y = a.pt.y - b.pt.y;
    return x * x + y * y <= double(d) * d;
}
static bool within(float disparity, float fb, float nearest, float farthest) { return disparity > 0 && fb / disparity >= nearest && fb / disparity <= farthest; }
struct Spec { Points k[2]; std::vector<int> ids; std::vector<cv::DMatch> m; };
static void same(const Tracker::LRKeyPointMatches& got, const Spec& want, long j, long offset) {
    vp_ieq(got.matches[offset + j].queryIdx, offset + j, "match-joins-the-features-at-its-position");
    vp_ieq(got.matches[offset + j].trainIdx, offset + j, "match-joins-the-features-at-its-position");
    vp_eqf(got.matches[offset + j].distance, want.m[j].distance, "match-distance");
    for (int lr = 0; lr < 2; ++lr) {
        const cv::KeyPoint &a = got.keypoints[lr][offset + j], &b = want.k[lr][j];
        vp_eqf(a.pt.x, b.pt.x, "feature-position");
        vp_eqf(a.pt.y, b.pt.y, "feature-position");
        vp_eqf(a.size, b.size, "feature-attributes");
        vp_eqf(a.angle, b.angle, "feature-attributes");
        vp_eqf(a.response, b.response, "feature-attributes");
        vp_ieq(a.octave, b.octave, "feature-attributes");
        vp_ieq(a.class_id, b.class_id, "feature-attributes");
    }
}
// the followed features with their identifiers, then the new ones with the next identifiers
static void check(const Tracker::LRKeyPointMatches& got, const Spec& kept, const Spec& fresh, long next) {
    const long K = long(kept.m.size()), F = long(fresh.m.size());
    vp_ieq(long(got.matches.size()), K + F, "number-of-matches");
    vp_ieq(long(got.match_ids.size()), K + F, "one-identifier-per-match");
    vp_ieq(long(got.keypoints[0].size()), K + F, "one-left-feature-per-match");
    vp_ieq(long(got.keypoints[1].size()), K + F, "one-right-feature-per-match");
    if (K > 0) {
        vp_cover("followed");
        const long j = vp_any_index("j", K);
        same(got, kept, j, 0);
        vp_ieq(got.match_ids[j], kept.ids[j], "followed-feature-keeps-its-identifier");
    }
    if (F > 0) {
        vp_cover("new");
        const long j = vp_any_index("k", F);
        same(got, fresh, j, K);
        vp_ieq(got.match_ids[K + j], next + j, "new-feature-has-the-next-identifier");
    }
}
static void process(bool depth, bool first, bool few, bool counted = false) {
    vp_note("loops over symbolic lengths are always summarised");
    const long n = first ? 0 : vp_len("n", 1, 5);
    const long rows = vp_int("rows", 1, 9), cols = vp_int("cols", 1, 9);
    const float dist = float(vp_real_near("dist", 0, 3)), vertical = float(vp_real_near("vertical", 0, 9));
    const double limit = vp_real_near("limit", 0, 2);
    const int next = int(vp_int("next", 0, 1000));
    Images images;
    im = &images;
    for (int lr = 0; lr < 2; ++lr) {
        Images::shape(images.old[lr], rows, cols, bytes + lr);
        Images::shape(images.now[lr], rows, cols, bytes + 2 + lr);
    }
    count_[0] = few ? vp_enum("kl", 0, 1) : vp_len("kl", first ? 2 : 0, 5);
    count_[1] = vp_len("kr", 0, 5);
    Flow* flow = new Flow;
    flow->n = n;
    Tracker t(cv::Ptr<cv::Feature2D>(new Detector), cv::Ptr<cv::SparseOpticalFlow>(flow), serpent::StereoMatchFilter::create(vertical), cv::Ptr<serpent::StereoKeyPointMatcher>(new Matcher), dist, limit);
    const float fb = float(vp_real_near("fx", 10, 20)) * float(vp_real_near("baseline", 0, 1)), farthest = float(vp_real_near("farthest", 0, 50)), nearest = float(vp_real_near("nearest", 0, 5));
    if (depth) t.set_stereo_distance_filter(serpent::StereoDistanceFilter::create(float(vp_real_near("fx", 10, 20)), float(vp_real_near("baseline", 0, 1)), farthest, nearest));
    vp_ieq(t.frame_number(), -1, "no-frame-processed");
    if (!first) {
        // the state after any number of frames: features joined one to one
        t.frame_number_ = int(vp_int("frame", 0, 1000));
        t.next_match_id = next;
        t.previous_images = {images.old[0], images.old[1]};
        for (long i = 0; i < n; ++i) {
            t.previous_track_data.keypoints[0].push_back(previous(0, i));
            t.previous_track_data.keypoints[1].push_back(previous(1, i));
            t.previous_track_data.matches.push_back(cv::DMatch(int(i), int(i), f("distance", i, 0, 1)));
            t.previous_track_data.match_ids.push_back(int(vp_int_i("id", i, 0, 999)));
        }
    }
    const int start = first ? 0 : next;
    Tracker::Statistics stats;
    // counters that the call has to set, whatever they were before
    stats.frame_number = stats.max_match_id = stats.longest_tracked_match_id = 77;
    stats.tracked_kp_count[0] = stats.tracked_kp_count[1] = stats.tracked_match_count = stats.extracted_kp_count[0] = stats.extracted_kp_count[1] = 77;
    stats.filtered_extracted_kp_count[0] = stats.filtered_extracted_kp_count[1] = stats.new_match_count = stats.total_match_count = 77;
    const Tracker::LRKeyPointMatches got = counted ? t.process(images.now[0], images.now[1], std::ref(stats)) : t.process(images.now[0], images.now[1]);
    // what it should be
    Points hyp[2];
    std::vector<int> hyp_ids;
    std::vector<cv::DMatch> hyp_m;
    for (long i = 0; i < n; ++i) {
        if (vp_bool_i(S[0], i) && vp_bool_i(S[1], i)) {
            hyp_m.push_back(cv::DMatch(int(hyp[0].size()), int(hyp[1].size()), f("distance", i, 0, 1)));
            hyp[0].push_back(moved(0, i));
            hyp[1].push_back(moved(1, i));
            hyp_ids.push_back(int(vp_int_i("id", i, 0, 999)));
        }
    }
    Spec kept;
    for (std::size_t i = 0; i < hyp_m.size(); ++i) {
        const float dx = hyp[0][i].pt.x - hyp[1][i].pt.x, dy = hyp[0][i].pt.y - hyp[1][i].pt.y;
        if (dx > 0 && std::abs(dy) <= vertical && (!depth || within(dx, fb, nearest, farthest))) {
            kept.k[0].push_back(hyp[0][i]);
            kept.k[1].push_back(hyp[1][i]);
            kept.ids.push_back(hyp_ids[i]);
            kept.m.push_back(hyp_m[i]);
        }
    }
    Points fresh[2];
    for (int lr = 0; lr < 2; ++lr)
        for (long i = 0; i < count_[lr]; ++i) {
            bool close = false;
            for (std::size_t h = 0; h < hyp[lr].size(); ++h)
                if (near(hyp[lr][h], detected(lr, i), dist)) { close = true; break; }
            if (!close) fresh[lr].push_back(detected(lr, i));
        }
    Spec added;
    for (std::size_t i = 0; i < fresh[0].size(); ++i) {
        const long r = vp_int_i("match", fresh[0][i].class_id, -1, vp_native() ? 5 : 1000000);
        const double cost = vp_real_near_i("cost", fresh[0][i].class_id, 0, 2);
        if (cost < limit && r >= 0 && r < long(fresh[1].size()) && (!depth || within(fresh[0][i].pt.x - fresh[1][r].pt.x, fb, nearest, farthest))) {
            added.m.push_back(cv::DMatch(int(added.k[0].size()), int(added.k[1].size()), float(cost)));
            added.k[0].push_back(fresh[0][i]);
            added.k[1].push_back(fresh[1][r]);
        }
    }
    check(got, kept, added, start);
    vp_ieq(t.next_match_id, start + long(added.m.size()), "identifiers-used-once");
    vp_ieq(t.frame_number(), first ? 0 : vp_int("frame", 0, 1000) + 1, "frames-counted");
    // what the next frame starts from: these images and this result
    for (int lr = 0; lr < 2; ++lr) vp_ensure(t.previous_images[lr].data == images.now[lr].data, "next-frame-followed-from-these-images");
    check(t.previous_track_data, kept, added, start);
    if (!counted) return;
    vp_ieq(stats.frame_number, t.frame_number(), "counted-frame-number");
    for (int lr = 0; lr < 2; ++lr) {
        vp_ieq(long(stats.tracked_kp_count[lr]), long(hyp[lr].size()), "counted-followed-features");
        vp_ieq(long(stats.extracted_kp_count[lr]), count_[lr], "counted-detected-features");
        vp_ieq(long(stats.filtered_extracted_kp_count[lr]), long(fresh[lr].size()), "counted-features-away-from-followed-ones");
    }
    vp_ieq(long(stats.tracked_match_count), long(kept.m.size()), "counted-followed-matches");
    vp_ieq(long(stats.new_match_count), long(added.m.size()), "counted-new-matches");
    vp_ieq(long(stats.total_match_count), long(kept.m.size() + added.m.size()), "counted-matches");
    vp_ieq(stats.max_match_id, start + long(added.m.size()) - 1, "largest-identifier");
    vp_ieq(stats.longest_tracked_match_id, kept.m.size() > 0 ? kept.ids[0] : -1, "oldest-followed-match");
    vp_ieq(long(stats.match_ids.size()), long(got.match_ids.size()), "identifiers-reported");
    if (got.match_ids.size() > 0) {
        const long j = vp_any_index("r", long(got.match_ids.size()));
        vp_ieq(stats.match_ids[j], got.match_ids[j], "identifiers-reported");
    }
}
CONTRACT(process_first) { process(false, true, false); }
CONTRACT(process_first_few) { process(false, true, true); }
CONTRACT(process_next) { process(false, false, false); }
CONTRACT(process_depth) { process(true, false, false); }
// statistics report exactly what happened, and asking for them changes nothing
CONTRACT(statistics_first) { process(false, true, true, true); }
CONTRACT(statistics) { process(false, false, false, true); }
// native executions only (OpenCV fills the mask)
CONTRACT(region) {
    if (!vp_native()) return;
    Images images;
    im = &images;
    Flow* flow = new Flow;
    flow->n = 0;
    count_[0] = count_[1] = 0;
    const int r = int(vp_int("rows", 1, 9)), c = int(vp_int("cols", 1, 9)), x = int(vp_int("x", 0, 8)), y = int(vp_int("y", 0, 8));
    vp_assume(x < c && y < r);
    roi_ = cv::Rect(x, y, int(vp_int("w", 1, 9)), int(vp_int("h", 1, 9)));
    vp_assume(x + roi_.width <= c && y + roi_.height <= r);
    {
        Tracker t(cv::Ptr<cv::Feature2D>(new Detector), cv::Ptr<cv::SparseOpticalFlow>(flow), serpent::StereoMatchFilter::create(1.0f), cv::Ptr<serpent::StereoKeyPointMatcher>(new Matcher), 1.0f, 1.0, nullptr, roi_);
        for (int k = 0; k < 3; ++k) {
            for (int lr = 0; lr < 2; ++lr) Images::shape(images.now[lr], r + k / 2, c + (k > 1), bytes + lr);
            t.process(images.now[0], images.now[1]);
            vp_ieq(t.frame_number(), k, "frames-counted");
        }
        for (int lr = 0; lr < 2; ++lr) { t.previous_images[lr] = cv::Mat(); images.now[lr] = cv::Mat(); }
    }
    roi_ = cv::Rect();
}
// native executions only: four frames through the public interface alone
struct History {
    Images images[4];
    Points now[2];       // features of the last result
    int frame = 0;
    static long id(int frame, long i) { return frame * 16 + i; }
    static cv::KeyPoint found(int lr, int frame, long i) { return cv::KeyPoint(f(NX[lr], id(frame, i), 0, 30), f(NY[lr], id(frame, i), 0, 9), f(NS[lr], id(frame, i), 0, 9), 1.0f, 2.0f, 3, int(i)); }
    static cv::Point2f went(int lr, int frame, long i) { return cv::Point2f(f(X[lr], id(frame, i), 0, 30), f(Y[lr], id(frame, i), 0, 9)); }
    static bool seen(int lr, int frame, long i) { return vp_bool_i(S[lr], id(frame, i)) || vp_bool_i("rarely lost", id(frame, i)); }
};
static History* hist;
struct HistoryDetector : cv::Feature2D {
    void detect(cv::InputArray image, std::vector<cv::KeyPoint>& k, cv::InputArray) override {
        const int lr = image_data(image) == hist->images[hist->frame].now[1].data;
        vp_ensure(image_data(image) == hist->images[hist->frame].now[lr].data, "features-detected-in-the-new-images");
        for (long i = 0; i < vp_int_i(lr ? "found r" : "found l", hist->frame, 0, 5); ++i) k.push_back(History::found(lr, hist->frame, i));
    }
};
struct HistoryFlow : cv::SparseOpticalFlow {
    void calc(cv::InputArray before, cv::InputArray after, cv::InputArray from, cv::InputOutputArray to, cv::OutputArray st, cv::OutputArray) override {
        const int t = hist->frame, lr = image_data(before) == hist->images[t - 1].now[1].data;
        vp_ensure(image_data(before) == hist->images[t - 1].now[lr].data, "followed-from-the-previous-image");
        vp_ensure(image_data(after) == hist->images[t].now[lr].data, "followed-to-the-new-image-of-the-same-side");
        const cv::Mat p = from.getMat();
        vp_ieq(long(p.total()), long(hist->now[lr].size()), "all-previous-features-followed");
        cv::Mat& a = *static_cast<cv::Mat*>(to.getObj());
        cv::Mat& b = *static_cast<cv::Mat*>(st.getObj());
        a.create(int(p.total()), 1, CV_32FC2);
        b.create(int(p.total()), 1, CV_8U);
        for (int i = 0; i < int(p.total()); ++i) {
            vp_eqf(p.at<cv::Point2f>(i).x, hist->now[lr][i].pt.x, "all-previous-features-followed");
            vp_eqf(p.at<cv::Point2f>(i).y, hist->now[lr][i].pt.y, "all-previous-features-followed");
            a.at<cv::Point2f>(i) = History::went(lr, t, i);
            b.at<unsigned char>(i) = History::seen(lr, t, i);
        }
    }
};
CONTRACT(history) {
    if (!vp_native()) return;
    History h;
    hist = &h;
    const float dist = float(vp_real_near("dist", 0, 3)), vertical = float(vp_real_near("vertical", 2, 9));
    const double limit = vp_real_near("limit", 1, 2);
    const float fb = float(vp_real_near("fx", 10, 20)) * float(vp_real_near("baseline", 0.5, 1)), farthest = float(vp_real_near("farthest", 5, 50)), nearest = float(vp_real_near("nearest", 0, 1));
    static unsigned char at[8];
    Tracker t(cv::Ptr<cv::Feature2D>(new HistoryDetector), cv::Ptr<cv::SparseOpticalFlow>(new HistoryFlow), serpent::StereoMatchFilter::create(vertical), cv::Ptr<serpent::StereoKeyPointMatcher>(new Matcher), dist, limit, serpent::StereoDistanceFilter::create(float(vp_real_near("fx", 10, 20)), float(vp_real_near("baseline", 0.5, 1)), farthest, nearest));
    std::vector<int> ids;
    std::vector<float> distances;
    int next = 0;
    for (int k = 0; k < 4; ++k) {
        h.frame = k;
        for (int lr = 0; lr < 2; ++lr) Images::shape(h.images[k].now[lr], 4, 4, at + 2 * k + lr);
        im = &h.images[k];
        const Tracker::LRKeyPointMatches got = t.process(h.images[k].now[0], h.images[k].now[1]);
        vp_ieq(t.frame_number(), k, "frames-counted");
        Points hyp[2], fresh[2];
        Spec kept, added;
        for (std::size_t i = 0; i < ids.size(); ++i) {
            if (!History::seen(0, k, i) || !History::seen(1, k, i)) continue;
            cv::KeyPoint s[2] = {h.now[0][i], h.now[1][i]};
            for (int lr = 0; lr < 2; ++lr) { s[lr].pt = History::went(lr, k, i); hyp[lr].push_back(s[lr]); }
            const float dx = s[0].pt.x - s[1].pt.x;
            if (dx > 0 && std::abs(s[0].pt.y - s[1].pt.y) <= vertical && within(dx, fb, nearest, farthest)) {
                for (int lr = 0; lr < 2; ++lr) kept.k[lr].push_back(s[lr]);
                kept.ids.push_back(ids[i]);
                kept.m.push_back(cv::DMatch(int(i), int(i), distances[i]));
            }
        }
        for (int lr = 0; lr < 2; ++lr)
            for (long i = 0; i < vp_int_i(lr ? "found r" : "found l", k, 0, 5); ++i) {
                bool close = false;
                for (const cv::KeyPoint& p : hyp[lr]) close = close || near(p, History::found(lr, k, i), dist);
                if (!close) fresh[lr].push_back(History::found(lr, k, i));
            }
        for (const cv::KeyPoint& p : fresh[0]) {
            const long r = vp_int_i("match", p.class_id, -1, vp_native() ? 5 : 1000000);
            const double cost = vp_real_near_i("cost", p.class_id, 0, 2);
            if (cost < limit && r >= 0 && r < long(fresh[1].size()) && within(p.pt.x - fresh[1][r].pt.x, fb, nearest, farthest)) {
                added.m.push_back(cv::DMatch(0, 0, float(cost)));
                added.k[0].push_back(p);
                added.k[1].push_back(fresh[1][r]);
            }
        }
        check(got, kept, added, next);
        next += int(added.m.size());
        ids = got.match_ids;
        distances.clear();
        for (const cv::DMatch& m : got.matches) distances.push_back(m.distance);
        for (int lr = 0; lr < 2; ++lr) h.now[lr] = got.keypoints[lr];
    }
}
CONTRACT(refused) {
    Images images;
    im = &images;
    const long r = vp_int("rows", 1, 9), c = vp_int("cols", 1, 9), r2 = vp_int("rows2", 1, 9), c2 = vp_int("cols2", 1, 9);
    vp_assume(r != r2 || c != c2);
    Images::shape(images.now[0], r, c, bytes);
    Images::shape(images.now[1], r2, c2, bytes + 1);
    Flow* flow = new Flow;
    flow->n = 0;
    Tracker t(cv::Ptr<cv::Feature2D>(new Detector), cv::Ptr<cv::SparseOpticalFlow>(flow), serpent::StereoMatchFilter::create(1.0f), cv::Ptr<serpent::StereoKeyPointMatcher>(new Matcher), 1.0f, 1.0);
    bool thrown = false;
    try { t.process(images.now[0], images.now[1]); } catch (const std::runtime_error&) { thrown = true; }
    vp_ensure(thrown, "images-of-different-size-refused");
    vp_ieq(t.frame_number(), -1, "refused-pair-not-counted");
}
