// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <pcl/PCLHeader.h>
#include "std_msgs/Header.h"
namespace pcl_conversions {
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& r) {
    r.seq = h.seq;
    r.stamp = std::uint64_t(h.stamp.ns / 1000);
    r.frame_id = h.frame_id;
}
}
