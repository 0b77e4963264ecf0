// Stand-in for the TF header of this name: only what the code under contract uses. Keeps what is published.
#pragma once
#include "geometry_msgs/TransformStamped.h"
#include <vector>
namespace tf2_ros {
struct StaticTransformBroadcaster {
    static inline std::vector<geometry_msgs::TransformStamped>* published = nullptr;
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& t) { for (const auto& m : t) published->push_back(m); }
    void sendTransform(const geometry_msgs::TransformStamped& t) { published->push_back(t); }
};
}
