// Stand-in for the ROS header of this name.
#pragma once
#include "ros/ros.h"
#include "sensor_msgs/Image.h"
namespace image_transport {
using Publisher = ros::Publisher;
struct ImageTransport {
    explicit ImageTransport(const ros::NodeHandle&) {}
    Publisher advertise(const std::string& topic, int) { return Publisher{topic}; }
};
}
