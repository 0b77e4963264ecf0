// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <limits>
#include <stdexcept>
#include <string>
namespace ros {
// a parameter server given by the contract: the number of the parameter, or the number given otherwise
struct NodeHandle {
    static inline double (*number)(const std::string& name, double otherwise, bool integer) = nullptr;
    static inline std::string (*text)(const std::string& name, const std::string& otherwise) = nullptr;
    template <typename T>
    T param(const std::string& name, const T& otherwise) const;
    template <typename T>
    bool param(const std::string& name, T& value, const T& otherwise) const { value = param<T>(name, otherwise); return true; }
};
template <> inline double NodeHandle::param<double>(const std::string& name, const double& otherwise) const { return number(name, otherwise, false); }
template <> inline float NodeHandle::param<float>(const std::string& name, const float& otherwise) const { return float(number(name, otherwise, false)); }
template <> inline int NodeHandle::param<int>(const std::string& name, const int& otherwise) const { return int(number(name, otherwise, true)); }
template <> inline bool NodeHandle::param<bool>(const std::string& name, const bool& otherwise) const { return number(name, otherwise, true) != 0; }
template <> inline std::string NodeHandle::param<std::string>(const std::string& name, const std::string& otherwise) const { return text(name, otherwise); }
}
#define ROS_INFO_STREAM(x) do {} while (0)
#define ROS_WARN_STREAM(x) do {} while (0)
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_ERROR_STREAM(x) do {} while (0)
