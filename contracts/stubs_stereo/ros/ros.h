// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <boost/bind.hpp>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "ros/time.h"
namespace ros {
// keeps what is published
template <typename M>
struct Published {
    struct Message { std::string topic; M message; };
    static inline std::vector<Message> list;
};
struct Publisher {
    std::string topic;
    template <typename M>
    void publish(const M& m) const { Published<M>::list.push_back({topic, m}); }
    std::string getTopic() const { return topic; }
};
struct WallTime {
    static WallTime now() { return WallTime(); }
    Duration operator-(const WallTime&) const { return Duration(); }
};
// parameters given by the contract, or what is given otherwise
struct NodeHandle {
    static inline double (*number)(const std::string& name, double otherwise, bool integer) = nullptr;
    static inline std::string (*text)(const std::string& name, const std::string& otherwise) = nullptr;
    explicit NodeHandle(const std::string& = "") {}
    template <typename M>
    Publisher advertise(const std::string& topic, int) { return Publisher{topic}; }
    template <typename T>
    T param(const std::string& name, const T& otherwise) const;
    template <typename T>
    bool param(const std::string& name, T& value, const T& otherwise) const { value = param<T>(name, otherwise); return true; }
};
template <> inline double NodeHandle::param<double>(const std::string& name, const double& otherwise) const { return number(name, otherwise, false); }
template <> inline float NodeHandle::param<float>(const std::string& name, const float& otherwise) const { return float(number(name, otherwise, false)); }
template <> inline int NodeHandle::param<int>(const std::string& name, const int& otherwise) const { return int(number(name, otherwise, true)); }
template <> inline bool NodeHandle::param<bool>(const std::string& name, const bool& otherwise) const { return number(name, otherwise, true) != 0; }
template <> inline std::string NodeHandle::param<std::string>(const std::string& name, const std::string& otherwise) const { return text(name, otherwise); }
template <> inline std::vector<int> NodeHandle::param<std::vector<int>>(const std::string& name, const std::vector<int>& otherwise) const {
    std::vector<int> v;
    for (std::size_t i = 0; i < otherwise.size(); ++i) v.push_back(int(number(name + "[" + std::to_string(i) + "]", otherwise[i], true)));
    return v;
}
}
#define ROS_INFO_STREAM(x) do {} while (0)
#define ROS_WARN_STREAM(x) do {} while (0)
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_ERROR_STREAM(x) do {} while (0)
#define ROS_WARN_ONCE(...) do {} while (0)
