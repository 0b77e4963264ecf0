// Stand-in for the header generated from /repo/statistics_msgs/msg/SummaryStatisticsArray.msg: the same members.
#pragma once
#include <vector>
#include "statistics_msgs/SummaryStatistics.h"
#include "std_msgs/Header.h"
namespace statistics_msgs {
struct SummaryStatisticsArray {
    std_msgs::Header header;
    std::vector<SummaryStatistics> statistics;
};
}
