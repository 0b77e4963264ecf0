// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <cstdint>
#include <vector>
namespace statistics_msgs {
struct CovarianceFloat32 {
    std::vector<float> matrix;
    std::uint64_t dimensions = 0;
};
}
