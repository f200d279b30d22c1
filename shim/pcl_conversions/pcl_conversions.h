#pragma once
#include <ros/ros.h>
#include <std_msgs/Header.h>
#include <pcl/PCLHeader.h>
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ULL); }
inline void toPCL(const ros::Time& t, std::uint64_t& s) { s = t.toNSec() / 1000ULL; }
inline ros::Time fromPCL(const std::uint64_t& s) { ros::Time t; fromPCL(s, t); return t; }
inline std::uint64_t toPCL(const ros::Time& t) { std::uint64_t s; toPCL(t, s); return s; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
inline void toPCL(const sensor_msgs::PointCloud2& s, pcl::PCLPointCloud2& d) { d = shim::Wire<sensor_msgs::PointCloud2>::to(s); }
inline void fromPCL(const pcl::PCLPointCloud2& s, sensor_msgs::PointCloud2& d) { d = shim::Wire<sensor_msgs::PointCloud2>::from(s); }
inline void moveFromPCL(pcl::PCLPointCloud2& s, sensor_msgs::PointCloud2& d) { fromPCL(s, d); }
inline void moveToPCL(sensor_msgs::PointCloud2& s, pcl::PCLPointCloud2& d) { toPCL(s, d); }
}
namespace pcl {
template<typename T> void toROSMsg(const pcl::PointCloud<T>& c, sensor_msgs::PointCloud2& m) { pcl::PCLPointCloud2 p; pcl::toPCLPointCloud2(c, p); pcl_conversions::fromPCL(p, m); }
template<typename T> void fromROSMsg(const sensor_msgs::PointCloud2& m, pcl::PointCloud<T>& c) { pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p); pcl::fromPCLPointCloud2(p, c); }
}
