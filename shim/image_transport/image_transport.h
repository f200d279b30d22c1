#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
namespace image_transport {
class Publisher {
public:
    Publisher() {}
    explicit Publisher(ros::Publisher p) : pub(std::move(p)) {}
    void publish(const sensor_msgs::Image& m) const { pub.publish(m); }
    void publish(const sensor_msgs::ImageConstPtr& m) const { pub.publish(m); }
    std::string getTopic() const { return pub.getTopic(); }
    uint32_t getNumSubscribers() const { return 1; }
private:
    ros::Publisher pub;
};
class Subscriber { public: ros::Subscriber sub; };
class ImageTransport {
public:
    explicit ImageTransport(const ros::NodeHandle& n) : nh(n) {}
    Publisher advertise(const std::string& t, uint32_t q, bool = false) { return Publisher(nh.advertise<sensor_msgs::Image>(t, q)); }
    template<typename T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const sensor_msgs::ImageConstPtr&), T* obj) {
        Subscriber s; s.sub = nh.subscribe<sensor_msgs::Image>(t, q, fp, obj); return s;
    }
private:
    ros::NodeHandle nh;
};
}
