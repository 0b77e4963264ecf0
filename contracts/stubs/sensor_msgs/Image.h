// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "std_msgs/Header.h"
namespace sensor_msgs {
struct Image {
    std_msgs::Header header;
    std::uint32_t height = 0, width = 0;
};
}
