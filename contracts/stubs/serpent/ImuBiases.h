// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "geometry_msgs/Vector3.h"
#include "std_msgs/Header.h"
namespace serpent {
struct ImuBiases {
    std_msgs::Header header;
    geometry_msgs::Vector3 accelerometer_bias, gyroscope_bias;
};
}
