// Stand-in for the ROS header of this name.
#pragma once
#include <string>
namespace sensor_msgs { namespace image_encodings { const std::string RGB8 = "rgb8", BGR8 = "bgr8", MONO8 = "mono8"; } }
