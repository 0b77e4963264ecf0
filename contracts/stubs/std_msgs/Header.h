// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <string>
#include "ros/time.h"
namespace std_msgs {
struct Header {
    std::uint32_t seq = 0;
    ros::Time stamp;
    std::string frame_id;
};
}
