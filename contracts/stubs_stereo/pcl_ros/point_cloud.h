// Stand-in for the ROS header of this name.
#pragma once
#include <pcl/point_cloud.h>
