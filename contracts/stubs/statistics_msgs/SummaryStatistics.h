// Stand-in for the header generated from /repo/statistics_msgs/msg/SummaryStatistics.msg: the same members.
#pragma once
#include <cstdint>
#include <string>
namespace statistics_msgs {
struct SummaryStatistics {
    std::string label;
    double min = 0, max = 0, mean = 0, variance = 0;
    std::uint64_t count = 0;
};
}
