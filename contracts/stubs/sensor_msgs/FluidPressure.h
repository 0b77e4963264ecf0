// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "std_msgs/Header.h"
namespace sensor_msgs {
struct FluidPressure {
    std_msgs::Header header;
    double fluid_pressure = 0, variance = 0;
};
}
