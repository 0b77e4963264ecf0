// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <string>
#include <vector>
#include "ros/time.h"
namespace std_msgs {
struct MultiArrayDimension {
    std::string label;
    std::uint32_t size = 0, stride = 0;
};
struct MultiArrayLayout {
    std::vector<MultiArrayDimension> dim;
    std::uint32_t data_offset = 0;
};
struct Float64MultiArray {
    MultiArrayLayout layout;
    std::vector<double> data;
};
}
