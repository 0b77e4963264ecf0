// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "std_msgs/Header.h"
#include <boost/array.hpp>
#include <cstdint>
#include <string>
#include <vector>
namespace sensor_msgs {
struct CameraInfo {
    std_msgs::Header header;
    std::uint32_t height = 0, width = 0;
    std::string distortion_model;
    std::vector<double> D;
    boost::array<double, 9> K{}, R{};
    boost::array<double, 12> P{};
    std::uint32_t binning_x = 0, binning_y = 0;
};
}
