// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "std_msgs/Header.h"
#include <memory>
#include <vector>
namespace sensor_msgs {
struct Image {
    std_msgs::Header header;
    std::uint32_t height = 0, width = 0;
    std::string encoding;
    std::vector<std::uint8_t> data;
    using ConstPtr = std::shared_ptr<const Image>;
};
using ImagePtr = std::shared_ptr<Image>;
using ImageConstPtr = std::shared_ptr<const Image>;
}
