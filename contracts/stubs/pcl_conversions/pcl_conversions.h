// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <pcl/PCLHeader.h>
#include "std_msgs/Header.h"
namespace pcl_conversions {
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) {
    std_msgs::Header r;
    r.seq = h.seq;
    r.stamp.ns = std::int64_t(h.stamp) * 1000;
    r.frame_id = h.frame_id;
    return r;
}
}
