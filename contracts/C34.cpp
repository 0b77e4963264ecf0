// C34: stereo features are published as they were tracked, by a tracker built as configured.
// @sources: serpent/src/front_end/stereo/stereo_factor_finder.cpp serpent/src/front_end/stereo/match_filters.cpp serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp serpent/src/front_end/stereo/window_functions.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp
// @flags: -Icontracts/stubs_stereo -Icontracts/stubs
// @libs: -lopencv_core -lopencv_features2d -lopencv_imgproc -lopencv_video
// @assumed: opencv.cpp
// @strings: HARRIS_SCORE|FAST_SCORE|NORM_INF|NORM_L1|NORM_L2|NORM_L2SQR|NORM_HAMMING|NORM_HAMMING2|NORM_TYPE_MASK|NORM_RELATIVE|NORM_MINMAX|COUNT|MAX_ITER|EPS|COUNT+EPS|MAX_ITER+EPS|TYPE_5_8|TYPE_7_12|TYPE_9_16|NORM_L|harris||unknown
#include "vp.hpp"
#include <array>
#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include "serpent/front_end/stereo/stereo_factor_finder.hpp"
using namespace serpent;
using Tracker = StereoFeatureTracker;
namespace serpent {
cv::ORB::ScoreType to_orb_score_type(const std::string&);
cv::NormTypes to_norm_type(const std::string&);
int to_term_criteria_type(const std::string&);
cv::FastFeatureDetector::DetectorType to_fast_type(const std::string&);
}
template <std::size_t N, typename F>
static void names(const char* const (&all)[N], const int (&values)[N], F parse) {
    std::string s;
    vp_string("s", s);
    int want = -1, got = -1;
    for (std::size_t k = 0; k < N; ++k) if (s == all[k]) want = values[k];
    try { got = int(parse(s)); } catch (const std::runtime_error&) {}
    vp_ieq(got, want, "names-one-to-one");
}
CONTRACT(scores) { names({"HARRIS_SCORE", "FAST_SCORE"}, {0, 1}, to_orb_score_type); }
CONTRACT(norms) {
    names({"NORM_INF", "NORM_L1", "NORM_L2", "NORM_L2SQR", "NORM_HAMMING", "NORM_HAMMING2", "NORM_TYPE_MASK", "NORM_RELATIVE", "NORM_MINMAX"},
        {1, 2, 4, 5, 6, 7, 7, 8, 32}, to_norm_type);
}
CONTRACT(criteria) { names({"COUNT", "MAX_ITER", "EPS", "COUNT+EPS", "MAX_ITER+EPS"}, {1, 1, 2, 3, 3}, to_term_criteria_type); }
CONTRACT(fast_types) { names({"TYPE_5_8", "TYPE_7_12", "TYPE_9_16"}, {0, 1, 2}, to_fast_type); }
// arbitrary tracked features: match k joins the keypoints it says
static Tracker::LRKeyPointMatches tracked(long n) {
    Tracker::LRKeyPointMatches t;
    for (long i = 0; i < n; ++i) {
        t.keypoints[0].push_back(cv::KeyPoint(float(vp_real_near_i("left x", i, 10, 90)), float(vp_real_near_i("left y", i, 0, 40)), 1.0f));
        t.keypoints[1].push_back(cv::KeyPoint(float(vp_real_near_i("right x", i, 0, 60)), float(vp_real_near_i("right y", i, 0, 40)), 1.0f));
    }
    for (long i = 0; i < n; ++i) {
        t.matches.push_back(cv::DMatch(int(vp_int_i("query", i, 0, n - 1)), int(vp_int_i("train", i, 0, n - 1)), 0.0f));
        t.match_ids.push_back(int(vp_int_i("id", i, 0, 1000000)));
    }
    return t;
}
static void same(const std::vector<StereoFeature>& f, const Tracker::LRKeyPointMatches& t) {
    vp_ieq(long(f.size()), long(t.matches.size()), "one-feature-per-match");
    for (std::size_t i = 0; i < t.matches.size(); ++i) {
        const cv::Point2f l = t.keypoints[0][t.matches[i].queryIdx].pt, r = t.keypoints[1][t.matches[i].trainIdx].pt;
        vp_eqf(f[i].left_x, l.x, "feature-at-its-left-keypoint");
        vp_eqf(f[i].left_y, l.y, "feature-at-its-left-keypoint");
        vp_eqf(f[i].right_x, r.x, "feature-at-its-right-keypoint");
        vp_eqf(f[i].right_y, r.y, "feature-at-its-right-keypoint");
        vp_ieq(f[i].id, t.match_ids[i], "feature-under-its-identifier");
    }
}
static void features(long n) {
    const Tracker::LRKeyPointMatches t = tracked(n);
    std::vector<StereoFeature> f(std::size_t(vp_case("before", 0, 2)));
    to_ros(f, t);
    same(f, t);
}
CONTRACT(no_features) { features(0); }
CONTRACT(one_feature) { features(1); }
CONTRACT(two_features) { features(2); }
CONTRACT(three_features) { features(3); }
static Tracker::Statistics any_statistics(long ids) {
    Tracker::Statistics s;
    s.frame_number = int(vp_int("frame", 0, 1000000));
    s.max_match_id = int(vp_int("max id", 0, 1000000));
    s.longest_tracked_match_id = int(vp_int("longest", 0, 1000000));
    s.tracked_match_count = std::size_t(vp_int("tracked", 0, 1000000));
    s.new_match_count = std::size_t(vp_int("new", 0, 1000000));
    s.total_match_count = std::size_t(vp_int("total", 0, 1000000));
    for (int i = 0; i < 2; ++i) {
        s.tracked_kp_count[i] = std::size_t(vp_int_i("tracked keypoints", i, 0, 1000000));
        s.extracted_kp_count[i] = std::size_t(vp_int_i("extracted keypoints", i, 0, 1000000));
        s.filtered_extracted_kp_count[i] = std::size_t(vp_int_i("filtered keypoints", i, 0, 1000000));
    }
    for (long i = 0; i < ids; ++i) s.match_ids.push_back(int(vp_int_i("listed id", i, 0, 1000000)));
    return s;
}
static void same(const StereoTrackerStatistics& m, const Tracker::Statistics& s) {
    vp_ieq(m.frame_number, s.frame_number, "statistics-published");
    vp_ieq(m.max_match_id, s.max_match_id, "statistics-published");
    vp_ieq(m.longest_tracked_match_id, s.longest_tracked_match_id, "statistics-published");
    vp_ieq(m.tracked_match_count, long(s.tracked_match_count), "statistics-published");
    vp_ieq(m.new_match_count, long(s.new_match_count), "statistics-published");
    vp_ieq(m.total_match_count, long(s.total_match_count), "statistics-published");
    for (int i = 0; i < 2; ++i) {
        vp_ieq(m.tracked_kp_count[i], long(s.tracked_kp_count[i]), "statistics-published");
        vp_ieq(m.extracted_kp_count[i], long(s.extracted_kp_count[i]), "statistics-published");
        vp_ieq(m.filtered_extracted_kp_count[i], long(s.filtered_extracted_kp_count[i]), "statistics-published");
    }
    vp_ieq(long(m.match_ids.size()), long(s.match_ids.size()), "identifiers-published");
    for (std::size_t i = 0; i < s.match_ids.size(); ++i) vp_ieq(m.match_ids[i], s.match_ids[i], "identifiers-published");
}
static void statistics(long ids) {
    const Tracker::Statistics s = any_statistics(ids);
    StereoTrackerStatistics m;
    to_ros(m, s);
    same(m, s);
}
CONTRACT(statistics_none) { statistics(0); }
CONTRACT(statistics_two) { statistics(2); }
CONTRACT(points) {
    const float fx = float(vp_real_near("fx", 10, 99)), fy = float(vp_real_near("fy", 10, 99)), cx = float(vp_real_near("cx", 0, 50)), cy = float(vp_real_near("cy", 0, 50)), b = float(vp_real_near("b", 0.1, 2));
    const float l = float(vp_real_near("l", 20, 90)), r = float(vp_real_near("r", 0, 19)), v = float(vp_real_near("v", 0, 50));
    vp_assume(fx > 1 && fy > 1 && b > 0.01f && l - r > 0.5f);
    Eigen::Matrix3f K = Eigen::Matrix3f::Identity();
    K(0, 0) = fx; K(1, 1) = fy; K(0, 2) = cx; K(1, 2) = cy;
    const pcl::PointXYZ p = stereo_coordinate_to_pcl_point(l, r, v, K, b);
    const geometry_msgs::Point q = stereo_coordinate_to_ros_point(l, r, v, K, b);
    const double depth = double(fx) * b / (double(l) - r);
    vp_eqf(p.x, (double(l) - cx) * depth / fx, "point-backprojected");
    vp_eqf(p.y, (double(v) - cy) * depth / fy, "point-backprojected");
    vp_eqf(p.z, depth, "point-backprojected");
    vp_eqf(q.x, (double(l) - cx) * depth / fx, "point-backprojected");
    vp_eqf(q.y, (double(v) - cy) * depth / fy, "point-backprojected");
    vp_eqf(q.z, depth, "point-backprojected");
}
// The tracker is its contract (C29): it keeps what it is built with and answers with arbitrary tracked features.
struct Built {
    cv::Ptr<cv::Feature2D> detector;
    cv::Ptr<cv::SparseOpticalFlow> flow;
    cv::Ptr<StereoMatchFilter> filter;
    cv::Ptr<StereoKeyPointMatcher> matcher;
    cv::Ptr<StereoDistanceFilter> depth;
    float distance = 0;
    double cost = 0;
    cv::Rect2i roi;
    int frames = 0, depths = 0;
};
static Built* built;
static Tracker::LRKeyPointMatches answer;
static Tracker::Statistics told;
static const cv::Mat* seen[2];
static cv::Mat copies[2];
static bool asked_statistics, asked_images;
static cv::DrawMatchesFlags flags[2];
Tracker::StereoFeatureTracker(const cv::Ptr<cv::Feature2D> d, const cv::Ptr<cv::SparseOpticalFlow> f, const cv::Ptr<StereoMatchFilter> s, cv::Ptr<StereoKeyPointMatcher> m,
        const float distance, const double cost, const cv::Ptr<StereoDistanceFilter> depth, const cv::Rect2i& r)
    : new_feature_sqr_dist_threshold(distance * distance), stereo_match_cost_threshold(cost), roi(r) {
    built->detector = d; built->flow = f; built->filter = s; built->matcher = m; built->distance = distance; built->cost = cost; built->depth = depth; built->roi = r;
}
int Tracker::frame_number() const { return built->frames - 1; }
std::string Tracker::Statistics::to_string() const { return ""; }
void Tracker::set_stereo_distance_filter(const cv::Ptr<StereoDistanceFilter> f) { built->depth = f; ++built->depths; }
Tracker::LRKeyPointMatches Tracker::process(const cv::Mat& l, const cv::Mat& r, std::optional<std::reference_wrapper<Statistics>> stats, std::optional<std::reference_wrapper<IntermediateImages>> images) {
    ++built->frames;
    copies[0] = l.clone();
    copies[1] = r.clone();
    asked_statistics = bool(stats);
    asked_images = bool(images);
    if (stats) stats->get() = told;
    if (images) {
        auto& i = images->get();
        cv::Mat* all[] = {&i.extracted_keypoints[0], &i.extracted_keypoints[1], &i.sof_matches[0], &i.sof_matches[1], &i.stereo_filtered_matches, &i.new_matches, &i.tracked_matches};
        for (int k = 0; k < 7; ++k) *all[k] = cv::Mat(1, 2, CV_8U, cv::Scalar(k + 1));
        flags[0] = i.keypoint_draw_flags;
        flags[1] = i.match_draw_flags;
    }
    return answer;
}
// native executions only: the parameters (a parameter may be missing)
static long key(const std::string& name) {
    long h = 7;
    for (char c : name) h = (h * 31 + c) % 1000003;
    return h;
}
static bool present(const std::string& name) { return vp_bool_i("given", key(name)); }
static double number(const std::string& name, double otherwise, bool integer) {
    if (!present(name)) return otherwise;
    const long k = key(name);
    if (name.find("enabled") != std::string::npos || name.find("publish") != std::string::npos || name.find("rich") != std::string::npos || name.find("print") != std::string::npos ||
            name.find("nonmax") != std::string::npos || name.find("use_harris") != std::string::npos) return vp_bool_i("flag", k);
    if (name.find("wta_k") != std::string::npos) return double(vp_int_i("integer", k, 2, 4));
    if (name.find("scale_factor") != std::string::npos || name.find("stereo_distance_filter") != std::string::npos) return 1.0 + std::abs(vp_real_near_i("number", k, 0, 1));
    if (name.find("matcher/ratio") != std::string::npos) return double(vp_int_i("integer", k, 1, 9)) / 10;
    if (name.find("filter/min_distance") != std::string::npos) return double(vp_int_i("integer", k, 0, 31)) / 32;
    if (name.find("window_size") != std::string::npos) return double(1 + 2 * vp_int_i("integer", k, 0, 15));
    if (integer) return double(vp_int_i("integer", k, 2, 31));
    return std::abs(vp_real_near_i("number", k, 0, 3));
}
static const char* detector_name;
static const char* matcher_name;
static std::string text(const std::string& name, const std::string& otherwise) {
    if (name == "stereo_tracking/detector/type") return detector_name ? detector_name : otherwise;
    if (name == "stereo_tracking/stereo_keypoint_matcher/cost_function") return matcher_name ? matcher_name : otherwise;
    if (!present(name)) return otherwise;
    const long k = key(name);
    if (name == "stereo_tracking/detector/orb/score_type") return vp_bool_i("text", k) ? "HARRIS_SCORE" : "FAST_SCORE";
    if (name == "stereo_tracking/detector/fast/type") { const char* t[] = {"TYPE_5_8", "TYPE_7_12", "TYPE_9_16"}; return t[vp_int_i("text", k, 0, 2)]; }
    if (name == "stereo_tracking/sparse_optical_flow/term_criteria/type") { const char* t[] = {"COUNT", "EPS", "COUNT+EPS"}; return t[vp_int_i("text", k, 0, 2)]; }
    if (name == "stereo_tracking/stereo_keypoint_matcher/matching_filter") { const char* t[] = {"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"}; return t[vp_int_i("text", k, 0, 2)]; }
    return otherwise;
}
static int integer(const std::string& name, int otherwise) { return int(number("stereo_tracking/" + name, otherwise, true)); }
static double real(const std::string& name, double otherwise) { return number("stereo_tracking/" + name, otherwise, false); }
static std::string word(const std::string& name, const std::string& otherwise) { return text("stereo_tracking/" + name, otherwise); }
struct OpenMatcher : StereoKeyPointMatcher {
    static cv::Size size(const StereoKeyPointMatcher& m) { return m.*&OpenMatcher::window; }
    static float vertical(const StereoKeyPointMatcher& m) { return m.*&OpenMatcher::vertical_pixel_threshold; }
    static MatchingFilter which(const StereoKeyPointMatcher& m) { return m.*&OpenMatcher::matching_filter; }
    static double limit(const StereoKeyPointMatcher& m) { return m.*&OpenMatcher::ratio; }
};
struct OpenDepth : StereoDistanceFilter {
    static float focal(const StereoDistanceFilter& m) { return m.*&OpenDepth::fx; }
    static float base(const StereoDistanceFilter& m) { return m.*&OpenDepth::baseline; }
    static float upper(const StereoDistanceFilter& m) { return m.*&OpenDepth::max_distance; }
    static float lower(const StereoDistanceFilter& m) { return m.*&OpenDepth::min_distance; }
};
using Image = sensor_msgs::Image;
using Info = sensor_msgs::CameraInfo;
using Sync = message_filters::TimeSynchronizer<Image, Image, Info, Info>;
template <typename M> static std::vector<typename ros::Published<std::shared_ptr<M>>::Message>& sent() { return ros::Published<std::shared_ptr<M>>::list; }
static void forget() {
    sent<StereoFeatures>().clear();
    sent<StereoTrackerStatistics>().clear();
    sent<pcl::PointCloud<pcl::PointXYZ>>().clear();
    sent<Image>().clear();
}
static void start(Built& b) {
    built = &b;
    ros::NodeHandle::number = number;
    ros::NodeHandle::text = text;
    forget();
}
static const char* DETECTORS[] = {nullptr, "FAST", "GFTT", "ORB", "SIFT"};
static const char* MATCHERS[] = {nullptr, "SAD", "SSD", "ZMSAD", "LSSAD", "NNCC"};
CONTRACT(configured) {
    if (!vp_native()) return;
    Built b;
    start(b);
    detector_name = DETECTORS[vp_int("detector", 0, 4)];
    matcher_name = MATCHERS[vp_int("matcher", 0, 5)];
    const StereoFactorFinder node;
    vp_ensure(Sync::topics == std::vector<std::string>({"stereo/left/image", "stereo/right/image", "stereo/left/camera_info", "stereo/right/camera_info"}), "left-and-right-topics");
    const std::string d = detector_name ? detector_name : "ORB";
    if (auto* p = dynamic_cast<cv::FastFeatureDetector*>(b.detector.get())) {
        vp_ensure(d == "FAST", "detector-as-configured");
        vp_ieq(p->getThreshold(), integer("detector/fast/threshold", 10), "detector-options");
        vp_ieq(p->getNonmaxSuppression(), integer("detector/fast/nonmax_suppression", 1), "detector-options");
        vp_ieq(p->getType(), to_fast_type(word("detector/fast/type", "TYPE_9_16")), "detector-options");
    } else if (auto* p = dynamic_cast<cv::GFTTDetector*>(b.detector.get())) {
        vp_ensure(d == "GFTT", "detector-as-configured");
        vp_ieq(p->getMaxFeatures(), integer("detector/gftt/max_corners", 1000), "detector-options");
        vp_eq(p->getQualityLevel(), real("detector/gftt/quality_level", 0.01), "detector-options");
        vp_eq(p->getMinDistance(), real("detector/gftt/min_distance", 1.0), "detector-options");
        vp_ieq(p->getBlockSize(), integer("detector/gftt/block_size", 3), "detector-options");
        vp_ieq(p->getHarrisDetector(), integer("detector/gftt/use_harris_detector", 0), "detector-options");
        vp_eq(p->getK(), real("detector/gftt/k", 0.04), "detector-options");
    } else if (auto* p = dynamic_cast<cv::ORB*>(b.detector.get())) {
        vp_ensure(d == "ORB", "detector-as-configured");
        vp_ieq(p->getMaxFeatures(), integer("detector/orb/num_features", 500), "detector-options");
        vp_eqf(p->getScaleFactor(), real("detector/orb/scale_factor", 1.2), "detector-options");
        vp_ieq(p->getNLevels(), integer("detector/orb/num_levels", 8), "detector-options");
        vp_ieq(p->getEdgeThreshold(), integer("detector/orb/edge_threshold", 31), "detector-options");
        vp_ieq(p->getFirstLevel(), integer("detector/orb/first_level", 0), "detector-options");
        vp_ieq(p->getWTA_K(), integer("detector/orb/wta_k", 2), "detector-options");
        vp_ieq(p->getScoreType(), to_orb_score_type(word("detector/orb/score_type", "HARRIS_SCORE")), "detector-options");
        vp_ieq(p->getPatchSize(), integer("detector/orb/patch_size", 31), "detector-options");
        vp_ieq(p->getFastThreshold(), integer("detector/orb/fast_threshold", 20), "detector-options");
    } else vp_ensure(d == "SIFT" && dynamic_cast<cv::SIFT*>(b.detector.get()) != nullptr, "detector-as-configured");
    auto* flow = dynamic_cast<cv::SparsePyrLKOpticalFlow*>(b.flow.get());
    vp_ensure(flow != nullptr, "optical-flow-as-configured");
    vp_ieq(flow->getWinSize().width, integer("sparse_optical_flow/win_size[0]", 21), "optical-flow-options");
    vp_ieq(flow->getWinSize().height, integer("sparse_optical_flow/win_size[1]", 21), "optical-flow-options");
    vp_ieq(flow->getMaxLevel(), integer("sparse_optical_flow/max_level", 3), "optical-flow-options");
    vp_ieq(flow->getTermCriteria().type, to_term_criteria_type(word("sparse_optical_flow/term_criteria/type", "COUNT+EPS")), "optical-flow-options");
    vp_ieq(flow->getTermCriteria().maxCount, integer("sparse_optical_flow/term_criteria/max_count", 30), "optical-flow-options");
    vp_eq(flow->getTermCriteria().epsilon, real("sparse_optical_flow/term_criteria/epsilon", 0.01), "optical-flow-options");
    vp_ieq(flow->getFlags(), integer("sparse_optical_flow/flags", 0), "optical-flow-options");
    vp_eq(flow->getMinEigThreshold(), real("sparse_optical_flow/min_eig_threshold", 0), "optical-flow-options");
    vp_eqf(b.filter->vertical_pixel_threshold(), real("stereo_match_filter/vertical_pixel_threshold", 1.0), "stereo-filter-threshold");
    const std::string m = matcher_name ? matcher_name : "SAD";
    vp_ensure((dynamic_cast<SADStereoKeyPointMatcher*>(b.matcher.get()) != nullptr) == (m == "SAD") && (dynamic_cast<SSDStereoKeyPointMatcher*>(b.matcher.get()) != nullptr) == (m == "SSD") &&
        (dynamic_cast<ZeroMeanSADStereoKeyPointMatcher*>(b.matcher.get()) != nullptr) == (m == "ZMSAD") && (dynamic_cast<LocallyScaledSADStereoKeyPointMatcher*>(b.matcher.get()) != nullptr) == (m == "LSSAD") &&
        (dynamic_cast<NCCStereoKeyPointMatcher*>(b.matcher.get()) != nullptr) == (m == "NNCC"), "matcher-as-configured");
    vp_ieq(OpenMatcher::size(*b.matcher).width, integer("stereo_keypoint_matcher/window_size/width", 3), "matcher-options");
    vp_ieq(OpenMatcher::size(*b.matcher).height, integer("stereo_keypoint_matcher/window_size/height", 3), "matcher-options");
    vp_eqf(OpenMatcher::vertical(*b.matcher), real("stereo_keypoint_matcher/vertical_pixel_threshold", 1.0), "matcher-options");
    vp_ieq(int(OpenMatcher::which(*b.matcher)), int(to_matching_filter(word("stereo_keypoint_matcher/matching_filter", "RATIO_TEST"))), "matcher-options");
    vp_eq(OpenMatcher::limit(*b.matcher), real("stereo_keypoint_matcher/ratio", 0.5), "matcher-options");
    vp_eq(b.cost, real("stereo_keypoint_matcher/cost_threshold", 1.0), "cost-limit");
    vp_eqf(b.distance, real("new_feature_dist_threshold", 5.0), "distance-of-new-features");
    const bool masked = number("stereo_mask/enabled", 0, true) != 0;
    vp_ieq(b.roi.x, masked ? long(number("stereo_mask/top_left_x", 0, true)) : 0, "region-of-interest");
    vp_ieq(b.roi.y, masked ? long(number("stereo_mask/top_left_y", 0, true)) : 0, "region-of-interest");
    vp_ieq(b.roi.width, masked ? long(number("stereo_mask/width", 0, true)) : 0, "region-of-interest");
    vp_ieq(b.roi.height, masked ? long(number("stereo_mask/height", 0, true)) : 0, "region-of-interest");
    vp_ensure(b.depth.empty() && b.depths == 0, "no-depth-filter-before-the-first-pair");
}
CONTRACT(unknown_names) {
    if (!vp_native()) return;
    Built b;
    start(b);
    const bool detector = vp_bool("which");
    detector_name = detector ? "SURF" : nullptr;
    matcher_name = detector ? nullptr : "XCORR";
    bool thrown = false;
    try { StereoFactorFinder node; } catch (const std::runtime_error&) { thrown = true; }
    vp_ensure(thrown, "unknown-name-refused");
}
static Info any_info(int side) {
    Info i;
    i.header.frame_id = side ? "right_camera" : "left_camera";
    i.header.stamp.ns = 5 + side;
    i.width = std::uint32_t(vp_int_i("width", side, 1, 9));
    i.height = std::uint32_t(vp_int_i("height", side, 1, 9));
    for (int k = 0; k < 9; ++k) i.K[k] = vp_real_near_i("K", 9 * side + k, 0, 50);
    for (int k = 0; k < 12; ++k) i.P[k] = vp_real_near_i("P", 12 * side + k, -50, 50);
    i.K[1] = i.K[3] = i.K[6] = i.K[7] = 0;
    i.K[8] = 1;
    if (i.K[0] == 0) i.K[0] = 1;
    if (i.K[4] == 0) i.K[4] = 1;
    if (i.P[0] == 0) i.P[0] = 1;
    return i;
}
static void same(const Info& a, const Info& b, const char* label) {
    vp_ensure(a.header.frame_id == b.header.frame_id && a.width == b.width && a.height == b.height, label);
    for (int k = 0; k < 9; ++k) vp_eq(a.K[k], b.K[k], label);
    for (int k = 0; k < 12; ++k) vp_eq(a.P[k], b.P[k], label);
}
static Tracker::LRKeyPointMatches any_tracked(long frame) {
    Tracker::LRKeyPointMatches t;
    const long n = vp_int_i("features", frame, 0, 5), at = 10 * frame;
    for (int s = 0; s < 2; ++s)
        for (long i = 0; i < n; ++i) t.keypoints[s].push_back(cv::KeyPoint(float(vp_real_near_i(s ? "rx" : "lx", at + i, 0, 90)), float(vp_real_near_i(s ? "ry" : "ly", at + i, 0, 40)), 1.0f));
    for (long i = 0; i < n; ++i) {
        t.matches.push_back(cv::DMatch(int(vp_int_i("query", at + i, 0, n - 1)), int(vp_int_i("train", at + i, 0, n - 1)), 0.0f));
        t.match_ids.push_back(int(vp_int_i("id", at + i, 0, 1000000)));
    }
    return t;
}
CONTRACT(pairs_of_images) {
    if (!vp_native()) return;
    Built b;
    start(b);
    detector_name = "FAST";
    matcher_name = nullptr;
    StereoFactorFinder node;
    const Info left = any_info(0);
    Info right = any_info(1);
    if (!vp_bool("different")) right.K[0] = left.K[0];
    const double baseline = -right.P[3] / right.P[0];
    const bool filtered = number("stereo_tracking/stereo_distance_filter/enabled", 0, true) != 0;
    const bool points = number("debug/stereo/publish_points", 0, true) != 0, stats = number("debug/stereo/publish_stats", 0, true) != 0;
    const bool images = number("debug/stereo/publish_intermediate_results", 0, true) != 0;
    const bool refused = (filtered && (left.K[0] != right.K[0] || baseline <= 0)) || (points && baseline <= 0);
    for (long frame = 0; frame < 2; ++frame) {
        forget();
        answer = any_tracked(frame);
        told = any_statistics(vp_int_i("listed", frame, 0, 3));
        auto l = std::make_shared<Image>(), r = std::make_shared<Image>();
        l->header.frame_id = "left";
        r->header.frame_id = "right";
        l->header.stamp.ns = vp_int_i("stamp", frame, 0, 4000000000000000000l);
        r->header.stamp.ns = l->header.stamp.ns + 1;
        l->height = r->height = 1;
        l->width = r->width = 3;
        for (int k = 0; k < 3; ++k) { l->data.push_back(std::uint8_t(vp_int_i("left pixel", 3 * frame + k, 0, 255))); r->data.push_back(std::uint8_t(vp_int_i("right pixel", 3 * frame + k, 0, 255))); }
        bool thrown = false;
        try { Sync::callback(l, r, std::make_shared<Info>(left), std::make_shared<Info>(right)); } catch (const std::runtime_error&) { thrown = true; }
        vp_ieq(thrown, refused, "invalid-cameras-refused");
        if (refused) return;
        vp_ieq(b.frames, frame + 1, "every-pair-processed-once");
        for (int k = 0; k < 3; ++k) vp_ensure(copies[0].at<unsigned char>(0, k) == l->data[k] && copies[1].at<unsigned char>(0, k) == r->data[k], "left-and-right-images");
        vp_ieq(b.depths, filtered, "depth-filter-made-once-when-enabled");
        if (filtered) {
            vp_eqf(OpenDepth::focal(*b.depth), float(left.K[0]), "depth-filter-of-the-cameras");
            vp_eqf(OpenDepth::base(*b.depth), float(baseline), "depth-filter-of-the-cameras");
            vp_eqf(OpenDepth::upper(*b.depth), real("stereo_distance_filter/max_distance", std::numeric_limits<float>::max()), "depth-filter-limits");
            vp_eqf(OpenDepth::lower(*b.depth), real("stereo_distance_filter/min_distance", 0.0), "depth-filter-limits");
        }
        vp_ieq(long(sent<StereoFeatures>().size()), 1, "one-message-per-pair");
        const StereoFeatures& f = *sent<StereoFeatures>().front().message;
        vp_ensure(sent<StereoFeatures>().front().topic == "stereo/features", "topic");
        vp_ensure(f.header.frame_id == "left" && f.header.stamp.ns == l->header.stamp.ns, "header-of-the-left-image");
        same(f.features, answer);
        same(f.left_info, left, "left-camera");
        same(f.right_info, right, "right-camera");
        vp_ieq(long(sent<StereoTrackerStatistics>().size()), stats, "statistics-when-asked");
        if (stats) {
            same(*sent<StereoTrackerStatistics>().front().message, told);
            vp_ieq(sent<StereoTrackerStatistics>().front().message->header.stamp.ns, l->header.stamp.ns, "header-of-the-left-image");
        }
        vp_ieq(long(sent<Image>().size()), images ? 7 : 0, "images-when-asked");
        const char* topics[] = {"stereo/left/extracted_keypoints/image", "stereo/right/extracted_keypoints/image", "stereo/left/sof_matches/image", "stereo/right/sof_matches/image",
            "stereo/stereo_filtered_matches/image", "stereo/new_matches/image", "stereo/tracked_matches/image"};
        for (const auto& m : sent<Image>()) {
            int k = 0;
            while (k < 7 && m.topic != topics[k]) ++k;
            vp_ensure(k < 7 && m.message->data.size() == 2 && m.message->data[0] == k + 1 && m.message->header.stamp.ns == l->header.stamp.ns, "images-on-their-topics");
        }
        if (images) {
            vp_ieq(int(flags[0]), number("debug/stereo/rich_keypoints", 1, true) != 0 ? 4 : 0, "drawn-as-asked");
            vp_ieq(int(flags[1]), number("debug/stereo/rich_matches", 1, true) != 0 ? 4 : 0, "drawn-as-asked");
        }
        vp_ieq(long(sent<pcl::PointCloud<pcl::PointXYZ>>().size()), points, "points-when-asked");
        if (points) {
            const auto& c = *sent<pcl::PointCloud<pcl::PointXYZ>>().front().message;
            vp_ensure(c.header.frame_id == "left", "header-of-the-left-image");
            std::size_t at = 0;
            Eigen::Matrix3f K;
            for (int k = 0; k < 9; ++k) K(k / 3, k % 3) = float(left.K[k]);
            for (const cv::DMatch& m : answer.matches) {
                const cv::Point2f p = answer.keypoints[0][m.queryIdx].pt, q = answer.keypoints[1][m.trainIdx].pt;
                Eigen::Vector3f want;
                try { want = stereo_backproject(Eigen::Vector3f{p.x, q.x, (p.y + q.y) / 2.0f}, K, float(baseline)); } catch (const std::exception&) { continue; }
                vp_ensure(at < c.size(), "points-of-the-matches");
                if (!std::isfinite(want.sum())) { ++at; continue; }
                for (int k = 0; k < 3; ++k) vp_eqf(c[at].data[k], want[k], "points-of-the-matches");
                ++at;
            }
            vp_ieq(long(c.size()), long(at), "points-of-the-matches");
        }
    }
}
