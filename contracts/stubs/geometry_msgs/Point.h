// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
namespace geometry_msgs {
struct Point {
    double x = 0, y = 0, z = 0;
};
}
