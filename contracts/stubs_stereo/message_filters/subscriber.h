// Stand-in for the ROS header of this name.
#pragma once
#include "ros/ros.h"
namespace message_filters {
template <typename M>
struct Subscriber {
    std::string topic;
    void subscribe(ros::NodeHandle&, const std::string& t, int) { topic = t; }
};
}
