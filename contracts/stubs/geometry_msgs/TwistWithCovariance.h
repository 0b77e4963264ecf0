// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <boost/array.hpp>
#include "geometry_msgs/Twist.h"
namespace geometry_msgs {
struct TwistWithCovariance {
    Twist twist;
    boost::array<double, 36> covariance{};
};
}
