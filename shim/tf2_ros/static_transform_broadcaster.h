#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace tf2_ros {
class StaticTransformBroadcaster {
public:
    void sendTransform(const geometry_msgs::TransformStamped& t) { shim::Quiet quiet; shim::bus().static_tf.push_back(t); }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (const auto& t : v) sendTransform(t); }
};
}
