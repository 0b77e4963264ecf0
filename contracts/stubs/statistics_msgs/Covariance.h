// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <cstdint>
#include <vector>
namespace statistics_msgs {
struct Covariance {
    std::vector<double> matrix;
    std::uint64_t dimensions = 0;
};
}
