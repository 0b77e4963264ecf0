// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <boost/array.hpp>
#include "geometry_msgs/Pose.h"
namespace geometry_msgs {
struct PoseWithCovariance {
    Pose pose;
    boost::array<double, 36> covariance{};
};
}
