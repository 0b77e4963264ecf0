// Stand-in for the message of this name.
#pragma once
#include "sensor_msgs/CameraInfo.h"
#include "serpent/StereoFeature.h"
namespace serpent {
struct StereoFeatures {
    using ConstPtr = std::shared_ptr<const StereoFeatures>;
    std_msgs::Header header;
    std::vector<StereoFeature> features;
    sensor_msgs::CameraInfo left_info, right_info;
};
}
