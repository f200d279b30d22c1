#pragma once
#include <ros/ros.h>
namespace message_filters {
template<typename M>
class Subscriber {
public:
    typedef typename shim::PtrTraits<M>::ConstPtr MConstPtr;
    Subscriber() {}
    Subscriber(ros::NodeHandle& nh, const std::string& t, uint32_t q) { subscribe(nh, t, q); }
    void subscribe(ros::NodeHandle& nh, const std::string& t, uint32_t q) {
        sub = nh.subscribe<M>(t, q, std::function<void(const MConstPtr&)>([this](const MConstPtr& m) { for (auto& c : callbacks) c(m); }));
    }
    template<typename C> void registerCallback(const C& c) { callbacks.push_back(c); }
    std::vector<std::function<void(const MConstPtr&)>> callbacks;
    std::string getTopic() const { return sub.getTopic(); }
private:
    ros::Subscriber sub;
};
}
