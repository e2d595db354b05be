#pragma once
#include <ros/ros.h>
namespace message_filters {
template<class M> struct Subscriber {
    using Ptr = typename shim::Travel<M>::Ptr;
    std::vector<std::function<void(const Ptr&)>> outs;
    ros::Subscriber sub;
    Subscriber() {}
    Subscriber(ros::NodeHandle& nh, const std::string& t, uint32_t q) { subscribe(nh, t, q); }
    Subscriber(const Subscriber&) = delete;
    void subscribe(ros::NodeHandle& nh, const std::string& t, uint32_t q) {
        sub = nh.add(t, q, [this](const std::any& m) { const Ptr p = shim::Travel<M>::out(m); for (auto& o : outs) o(p); });
    }
    std::string getTopic() const { return sub.getTopic(); }
};
}
