// Arbitrary 8-bit images for contracts.
#pragma once
#include "vp.hpp"
#include <algorithm>
#include <opencv2/core.hpp>
#include <opencv2/core/mat.hpp>
extern "C" {
long vp_pixel(const char* name, long row, long col);   // value of the pixel, 0..255
void* vp_image_data(const char* name, long rows, long cols, long step);
}
struct VpImage {
    long rows, cols;
    const char* name;
#ifdef VP_SYMBOLIC
    alignas(cv::Mat) unsigned char mem[sizeof(cv::Mat)];
    VpImage(const char* n, long r, long c, int type = CV_8U) : rows(r), cols(c), name(n) {
        cv::Mat& m = *reinterpret_cast<cv::Mat*>(mem);
        const long step = vp_len((std::string(n) == "A") ? "stepA" : "stepB", 1, 40);
        vp_assume(step >= c);
        m.flags = cv::Mat::MAGIC_VAL | type;
        m.dims = 2;
        m.rows = int(r);
        m.cols = int(c);
        m.data = static_cast<unsigned char*>(vp_image_data(n, r, c, step));
        m.datastart = m.data;
        m.dataend = m.data;
        m.datalimit = m.data;
        m.allocator = nullptr;
        m.u = nullptr;
        m.size.p = &m.rows;
        m.step.p = m.step.buf;
        m.step.buf[0] = static_cast<std::size_t>(step);
        m.step.buf[1] = 1;
    }
    const cv::Mat& mat() const { return *reinterpret_cast<const cv::Mat*>(mem); }
#else
    cv::Mat whole, view;
    VpImage(const char* n, long r, long c, int type = CV_8U) : rows(r), cols(c), name(n) {
        const long extra = std::min(vp_len(std::string(n) == "A" ? "stepA" : "stepB", 0, 5), 64L);
        whole.create(int(r) + 4, int(c) + int(extra) + 4, type);
        std::memset(whole.data, 0xEE, whole.total() * whole.elemSize());
        view = whole(cv::Rect(2, 2, int(c), int(r)));
        if (type == CV_8U)
            for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) view.at<unsigned char>(int(i), int(j)) = static_cast<unsigned char>(vp_pixel(n, i, j));
    }
    const cv::Mat& mat() const { return view; }
#endif
    double operator()(long i, long j) const { return double(vp_pixel(name, i, j)); }
};
// an image of which only the size matters
struct VpImageSize {
#ifdef VP_SYMBOLIC
    alignas(cv::Mat) unsigned char mem[sizeof(cv::Mat)];
    VpImageSize(long r, long c) {
        cv::Mat& m = *reinterpret_cast<cv::Mat*>(mem);
        m.flags = cv::Mat::MAGIC_VAL | CV_8U;
        m.dims = 2;
        m.rows = int(r);
        m.cols = int(c);
        m.data = nullptr;
        m.u = nullptr;
        m.size.p = &m.rows;
        m.step.p = m.step.buf;
        m.step.buf[0] = static_cast<std::size_t>(c + vp_int("row padding", 0, 1000));
        m.step.buf[1] = 1;
    }
    const cv::Mat& mat() const { return *reinterpret_cast<const cv::Mat*>(mem); }
#else
    cv::Mat m;
    VpImageSize(long r, long c) {
        m.flags = cv::Mat::MAGIC_VAL | CV_8U;
        m.dims = 2;
        m.rows = int(r);
        m.cols = int(c);
        m.step.buf[0] = static_cast<std::size_t>(c + vp_int("row padding", 0, 1000));
        m.step.buf[1] = 1;
    }
    ~VpImageSize() { m.dims = m.rows = m.cols = 0; }
    const cv::Mat& mat() const { return m; }
#endif
};
