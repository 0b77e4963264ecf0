// Stand-in for the ROS header of this name: the contract calls back.
#pragma once
#include <functional>
#include <memory>
#include "message_filters/subscriber.h"
namespace message_filters {
template <typename... M>
struct TimeSynchronizer {
    static inline std::function<void(const std::shared_ptr<const M>&...)> callback;
    static inline std::vector<std::string> topics;
    explicit TimeSynchronizer(int) {}
    void connectInput(Subscriber<M>&... s) { topics = {s.topic...}; }
    template <typename F>
    void registerCallback(F f) { callback = f; }
};
}
