// Stand-in for the message of this name.
#pragma once
#include "std_msgs/Header.h"
namespace serpent {
struct StereoFeature {
    double left_x = 0, left_y = 0, right_x = 0, right_y = 0;
    std::int64_t id = 0;
};
}
