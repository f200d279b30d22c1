#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace tf2 { class TransformException : public std::runtime_error { public: using std::runtime_error::runtime_error; }; }
namespace tf2_ros {
class Buffer {
public:
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t,
            const ros::Duration = ros::Duration()) const {
        shim::Quiet quiet;
        if (!shim::bus().lookup) throw tf2::TransformException("no transform from " + source + " to " + target);
        return std::any_cast<geometry_msgs::TransformStamped>(shim::bus().lookup(target, source, t));
    }
};
class TransformListener { public: explicit TransformListener(Buffer&) {} };
}
