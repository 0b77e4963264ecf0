// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "geometry_msgs/Pose.h"
#include "std_msgs/Header.h"
namespace geometry_msgs {
struct PoseStamped {
    std_msgs::Header header;
    Pose pose;
};
}
