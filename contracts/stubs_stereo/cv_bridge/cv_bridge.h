// Stand-in for the ROS header of this name: images of one byte per pixel.
#pragma once
#include <opencv2/core.hpp>
#include "sensor_msgs/Image.h"
#include "sensor_msgs/image_encodings.h"
namespace cv_bridge {
struct CvImage {
    std_msgs::Header header;
    std::string encoding;
    cv::Mat image;
    CvImage() = default;
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& i = cv::Mat()) : header(h), encoding(e), image(i) {}
    sensor_msgs::ImagePtr toImageMsg() const {
        auto m = std::make_shared<sensor_msgs::Image>();
        m->header = header;
        m->encoding = encoding;
        m->height = image.rows;
        m->width = image.cols;
        for (int r = 0; r < image.rows; ++r) m->data.insert(m->data.end(), image.ptr(r), image.ptr(r) + image.cols * image.elemSize());
        return m;
    }
};
using CvImageConstPtr = std::shared_ptr<const CvImage>;
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& m, const std::string& = "") {
    return std::make_shared<CvImage>(m->header, m->encoding, cv::Mat(m->height, m->width, CV_8U, const_cast<std::uint8_t*>(m->data.data())));
}
}
