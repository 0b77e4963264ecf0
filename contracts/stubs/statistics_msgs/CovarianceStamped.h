// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include "statistics_msgs/Covariance.h"
#include "std_msgs/Header.h"
namespace statistics_msgs {
struct CovarianceStamped {
    std_msgs::Header header;
    Covariance covariance;
};
}
