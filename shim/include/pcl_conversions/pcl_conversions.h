#pragma once
#include <pcl/PCLHeader.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
#include <ros/ros.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_msgs/Header.h>
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ull); }
inline void toPCL(const ros::Time& t, std::uint64_t& s) { s = t.toNSec() / 1000ull; }
inline ros::Time fromPCL(const std::uint64_t& s) { ros::Time t; fromPCL(s, t); return t; }
inline std::uint64_t toPCL(const ros::Time& t) { std::uint64_t s; toPCL(t, s); return s; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
inline void toPCL(const sensor_msgs::PointField& f, pcl::PCLPointField& g) { g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; }
inline void fromPCL(const pcl::PCLPointField& f, sensor_msgs::PointField& g) { g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; }
inline void toPCL(const sensor_msgs::PointCloud2& m, pcl::PCLPointCloud2& c) { c = *std::any_cast<shim::CloudPtr>(shim::Travel<sensor_msgs::PointCloud2>::in(m)); }
inline void fromPCL(const pcl::PCLPointCloud2& c, sensor_msgs::PointCloud2& m) { m = *shim::Travel<sensor_msgs::PointCloud2>::out(shim::Travel<pcl::PCLPointCloud2>::in(c)); }
inline void moveFromPCL(pcl::PCLPointCloud2& c, sensor_msgs::PointCloud2& m) { fromPCL(c, m); }
inline void moveToPCL(sensor_msgs::PointCloud2& m, pcl::PCLPointCloud2& c) { toPCL(m, c); }
}
namespace pcl {
template<class T> void fromROSMsg(const sensor_msgs::PointCloud2& m, pcl::PointCloud<T>& c) { pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p); pcl::fromPCLPointCloud2(p, c); }
template<class T> void toROSMsg(const pcl::PointCloud<T>& c, sensor_msgs::PointCloud2& m) { pcl::PCLPointCloud2 p; pcl::toPCLPointCloud2(c, p); pcl_conversions::fromPCL(p, m); }
}
