// C32: rotated and flipped images and their camera information agree.
// @sources: camera_tools/src/image_operations.cpp
// @flags: -Icontracts/stubs
// @libs: -lopencv_core -lopencv_imgproc
// @assumed: opencv.cpp
// @strings: map|odom|base_link
#include "vp.hpp"
#include <memory>
#include <stdexcept>
#include <vector>
#include <ros/ros.h>
#include "camera_tools/image_operations.hpp"
using namespace camera_tools;
using Info = sensor_msgs::CameraInfo;
static Info any_info() {
    Info i;
    i.header.stamp.ns = vp_int("stamp", 0, 4000000000000000000l);
    vp_string("frame", i.header.frame_id);
    vp_string("model", i.distortion_model);
    i.width = std::uint32_t(vp_int("width", 0, 100000));
    i.height = std::uint32_t(vp_int("height", 0, 100000));
    for (int k = 0; k < 9; ++k) { i.K[k] = vp_real_i("K", k); i.R[k] = vp_real_i("R", k); }
    for (int k = 0; k < 12; ++k) i.P[k] = vp_real_i("P", k);
    for (int k = 0; k < 5; ++k) i.D.push_back(vp_real_i("D", k));
    i.binning_x = std::uint32_t(vp_int("bx", 0, 9));
    i.binning_y = std::uint32_t(vp_int("by", 0, 9));
    return i;
}
// size, focal lengths and principal point are checked by each contract
static void rest(const Info& a, const Info& b) {
    vp_ieq(a.header.stamp.ns, b.header.stamp.ns, "stamp-kept");
    vp_ensure(a.header.frame_id == b.header.frame_id && a.distortion_model == b.distortion_model, "names-kept");
    vp_ieq(long(a.D.size()), long(b.D.size()), "distortion-kept");
    for (int k = 0; k < 5; ++k) vp_eq(a.D[k], b.D[k], "distortion-kept");
    for (int k = 0; k < 9; ++k) {
        vp_eq(a.R[k], b.R[k], "other-matrices-kept");
        if (k != 0 && k != 2 && k != 4 && k != 5) vp_eq(a.K[k], b.K[k], "other-matrices-kept");
    }
    for (int k = 0; k < 12; ++k) vp_eq(a.P[k], b.P[k], "other-matrices-kept");
    vp_ieq(a.binning_x, b.binning_x, "binning-kept");
    vp_ieq(a.binning_y, b.binning_y, "binning-kept");
}
static void check(const Info& got, const Info& in, bool swapped, double cx, double cy) {
    rest(got, in);
    vp_ieq(got.width, swapped ? in.height : in.width, "width");
    vp_ieq(got.height, swapped ? in.width : in.height, "height");
    vp_eq(got.K[0], swapped ? in.K[4] : in.K[0], "horizontal-focal-length");
    vp_eq(got.K[4], swapped ? in.K[0] : in.K[4], "vertical-focal-length");
    vp_eq(got.K[2], cx, "principal-point-moves-with-the-image");
    vp_eq(got.K[5], cy, "principal-point-moves-with-the-image");
}
// clockwise, in quarter turns
static void check_turned(const Info& got, const Info& in, int quarters) {
    const double w = in.width, h = in.height, cx = in.K[2], cy = in.K[5];
    switch (quarters) {
    case 0: check(got, in, false, cx, cy); break;
    case 1: check(got, in, true, h - cy, cx); break;
    case 2: check(got, in, false, w - cx, h - cy); break;
    default: check(got, in, true, cy, w - cx); break;
    }
}
CONTRACT(turns) {
    const Info in = any_info();
    const int quarters = int(vp_enum("quarters", 0, 3));
    Rotate r(90 * quarters);
    check_turned(static_cast<ImageOperation&>(r).apply(in), in, quarters);
    Rotate more(90 * quarters + 360 * int(vp_enum("more", 1, 2)));
    check_turned(more.apply(in), in, quarters);
}
CONTRACT(options) {
    const Info in = any_info();
    Rotate a(cv::RotateFlags::ROTATE_90_CLOCKWISE), b(cv::RotateFlags::ROTATE_180), c(cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE);
    check_turned(a.apply(in), in, 1);
    check_turned(b.apply(in), in, 2);
    check_turned(c.apply(in), in, 3);
    // turning back gives the first information again
    check_turned(c.apply(a.apply(in)), in, 0);
    check_turned(a.apply(c.apply(in)), in, 0);
    check_turned(b.apply(b.apply(in)), in, 0);
    check_turned(a.apply(a.apply(in)), in, 2);
    check_turned(a.apply(b.apply(in)), in, 3);
}
CONTRACT(flips) {
    const Info in = any_info();
    const double w = in.width, h = in.height, cx = in.K[2], cy = in.K[5];
    Flip a(Flip::FLIP_HORIZ), b(Flip::FLIP_VERT), c(Flip::FLIP_BOTH);
    check(a.apply(in), in, false, w - cx, cy);
    check(b.apply(in), in, false, cx, h - cy);
    check(c.apply(in), in, false, w - cx, h - cy);
    check(static_cast<ImageOperation&>(a).apply(a.apply(in)), in, false, cx, cy);
}
CONTRACT(refused) {
    const long degrees = vp_int("degrees", -1000, 1000);
    vp_assume(degrees < 0 ? (degrees + 1080) % 90 != 0 : degrees % 90 != 0);
    bool thrown = false;
    try { Rotate r{int(degrees)}; } catch (const std::runtime_error&) { thrown = true; }
    vp_ensure(thrown, "angle-that-is-no-multiple-of-90-refused");
    thrown = false;
    try { Flip f(static_cast<Flip::Option>(3)); } catch (const std::runtime_error&) { thrown = true; }
    vp_ensure(thrown, "unknown-flip-refused");
}
// native executions only (OpenCV moves the pixels): the pixel that was at (r, c)
CONTRACT(images) {
    if (!vp_native()) return;
    const int rows = int(vp_int("rows", 1, 9)), cols = int(vp_int("cols", 1, 9));
    cv::Mat in(rows, cols, CV_8UC3);
    for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) in.at<cv::Vec3b>(r, c) = cv::Vec3b(r, c, (unsigned char)vp_int_i("pixel", r * cols + c, 0, 255));
    const cv::Mat whole = in.clone();
    // operations are applied to regions of a larger image too
    const int r0 = int(vp_int("r0", 0, rows - 1)), c0 = int(vp_int("c0", 0, cols - 1));
    const cv::Mat part = in(cv::Rect(c0, r0, cols - c0, rows - r0));
    const int h = part.rows, w = part.cols, kind = int(vp_int("kind", 0, 6));
    std::unique_ptr<Rotate> turn;
    std::unique_ptr<Flip> flip;
    ImageOperation* op;
    if (kind < 4) { turn.reset(new Rotate(90 * kind)); op = turn.get(); }
    else { flip.reset(new Flip(kind == 4 ? Flip::FLIP_HORIZ : kind == 5 ? Flip::FLIP_VERT : Flip::FLIP_BOTH)); op = flip.get(); }
    const cv::Mat out = op->apply(part);
    const bool swapped = kind == 1 || kind == 3;
    vp_ieq(out.rows, swapped ? w : h, "image-size");
    vp_ieq(out.cols, swapped ? h : w, "image-size");
    vp_ieq(out.type(), in.type(), "image-type");
    for (int r = 0; r < h; ++r)
        for (int c = 0; c < w; ++c) {
            const int to_r = kind == 1 ? c : kind == 3 ? w - 1 - c : kind == 2 || kind >= 5 ? h - 1 - r : r;
            const int to_c = kind == 1 ? h - 1 - r : kind == 3 ? r : kind == 2 || kind == 4 || kind == 6 ? w - 1 - c : c;
            vp_ensure(out.at<cv::Vec3b>(to_r, to_c) == part.at<cv::Vec3b>(r, c), "pixels-move");
        }
    vp_ieq(long(cv::norm(whole, in, cv::NORM_INF)), 0, "input-unchanged");
    Info i;
    i.width = std::uint32_t(w);
    i.height = std::uint32_t(h);
    const Info o = op->apply(i);
    vp_ieq(o.width, out.cols, "information-has-the-size-of-the-image");
    vp_ieq(o.height, out.rows, "information-has-the-size-of-the-image");
}
