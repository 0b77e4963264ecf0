// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "statistics_msgs/CovarianceFloat32.h"
#include "std_msgs/Header.h"
namespace statistics_msgs {
struct CovarianceFloat32Stamped {
    std_msgs::Header header;
    CovarianceFloat32 covariance;
};
}
