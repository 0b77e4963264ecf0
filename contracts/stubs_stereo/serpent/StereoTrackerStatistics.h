// Stand-in for the message of this name.
#pragma once
#include "std_msgs/Header.h"
#include <boost/array.hpp>
#include <vector>
namespace serpent {
struct StereoTrackerStatistics {
    std_msgs::Header header;
    std::int32_t frame_number = 0, max_match_id = 0, longest_tracked_match_id = 0;
    boost::array<std::int32_t, 2> tracked_kp_count{};
    std::int32_t tracked_match_count = 0;
    boost::array<std::int32_t, 2> extracted_kp_count{}, filtered_extracted_kp_count{};
    std::int32_t new_match_count = 0, total_match_count = 0;
    std::vector<std::int32_t> match_ids;
};
}
