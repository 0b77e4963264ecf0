// Assumed contracts of the OpenCV functions the code under contract calls (OpenCV itself is not verified).
// Only part of the verifier's module; the native executions link the real library.
#include <opencv2/core.hpp>
#include <opencv2/features2d.hpp>
#include <vector>
namespace cv {
static void header(Mat& to, const Mat& from) {
    to.flags = from.flags;
    to.dims = from.dims;
    to.rows = from.rows;
    to.cols = from.cols;
    to.data = from.data;
    to.datastart = from.datastart;
    to.dataend = from.dataend;
    to.datalimit = from.datalimit;
    to.allocator = from.allocator;
    to.u = from.u;
    to.size.p = &to.rows;
    to.step.p = to.step.buf;
    to.step.buf[0] = from.step.buf[0];
    to.step.buf[1] = from.step.buf[1];
}
// copies of a matrix share its elements
Mat::Mat() noexcept : flags(MAGIC_VAL), dims(0), rows(0), cols(0), data(nullptr), datastart(nullptr), dataend(nullptr), datalimit(nullptr), allocator(nullptr), u(nullptr), size(&rows), step(0) {}
Mat::Mat(const Mat& m) : size(&rows) { header(*this, m); }
Mat::Mat(Mat&& m) : size(&rows) { header(*this, m); }
Mat& Mat::operator=(const Mat& m) { if (this != &m) header(*this, m); return *this; }
Mat& Mat::operator=(Mat&& m) { if (this != &m) header(*this, m); return *this; }
Mat::~Mat() {}
bool Mat::empty() const { return data == nullptr || rows * cols == 0; }
bool MatSize::operator==(const MatSize& s) const noexcept { return p[0] == s.p[0] && p[1] == s.p[1]; }
void KeyPoint::convert(const std::vector<KeyPoint>& k, std::vector<Point2f>& p, const std::vector<int>&) {
    p.resize(k.size());
    for (std::size_t i = 0; i < k.size(); ++i) p[i] = k[i].pt;
}
void Algorithm::save(const String&) const {}
String Algorithm::getDefaultName() const { return String(); }
Algorithm::Algorithm() {}
Algorithm::~Algorithm() {}
Feature2D::~Feature2D() {}
}
