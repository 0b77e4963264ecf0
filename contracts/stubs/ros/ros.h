// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <boost/array.hpp>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "ros/time.h"
namespace ros {
// a parameter server holding at most one parameter, given by the contract
struct NodeHandle {
    const std::vector<double>* stored = nullptr;
    template <typename T>
    T param(const std::string&, const T& otherwise) const { return stored ? *stored : otherwise; }
};
}
#define ROS_ERROR_STREAM(x) do {} while (0)
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_WARN_STREAM(x) do {} while (0)
#define ROS_INFO_STREAM(x) do {} while (0)
#define ROS_WARN_ONCE(...) do {} while (0)
