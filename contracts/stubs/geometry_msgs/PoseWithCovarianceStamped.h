// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "geometry_msgs/PoseWithCovariance.h"
#include "std_msgs/Header.h"
namespace geometry_msgs {
struct PoseWithCovarianceStamped {
    std_msgs::Header header;
    PoseWithCovariance pose;
};
}
