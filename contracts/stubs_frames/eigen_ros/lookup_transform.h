// Stand-in for the generated service header of this name (eigen_ros/srv/lookup_transform.srv).
#pragma once
#include "geometry_msgs/Transform.h"
#include <string>
namespace eigen_ros {
struct lookup_transform {
    struct Request { std::string source_frame, target_frame; };
    struct Response { geometry_msgs::Transform transform; };
};
}
