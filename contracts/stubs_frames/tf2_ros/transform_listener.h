// Stand-in for the TF header of this name: only what the code under contract uses. Transforms are given by the contract.
#pragma once
#include "geometry_msgs/TransformStamped.h"
#include "ros/time.h"
#include <string>
namespace tf2_ros {
struct Buffer {
    static inline geometry_msgs::TransformStamped (*given)(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration& timeout) = nullptr;
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration timeout = ros::Duration(0.0)) const { return given(target, source, time, timeout); }
};
struct TransformListener {
    explicit TransformListener(Buffer&) {}
};
}
