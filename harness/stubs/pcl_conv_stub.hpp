#pragma once
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "rclcpp_stub.hpp"
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t & us, rclcpp::Time & t) {t = rclcpp::Time(int64_t(us * 1000ull));}
inline void toPCL(const std_msgs::msg::Header & h, pcl::PCLHeader & p)
{ p.stamp = (uint64_t(h.stamp.sec) * 1000000000ull + h.stamp.nanosec) / 1000ull; p.seq = 0; p.frame_id = h.frame_id; }
inline void fromPCL(const pcl::PCLHeader & p, std_msgs::msg::Header & h)
{ h.stamp.sec = p.stamp / 1000000ull; h.stamp.nanosec = (p.stamp % 1000000ull) * 1000; h.frame_id = p.frame_id; }
inline void toPCL(const sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p)
{
  toPCL(m.header, p.header); p.height = m.height; p.width = m.width; p.fields.clear();
  for (auto & f : m.fields) {pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; p.fields.push_back(g);}
  p.is_bigendian = m.is_bigendian; p.point_step = m.point_step; p.row_step = m.row_step; p.is_dense = m.is_dense; p.data = m.data;
}
inline void fromPCL(const pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m)
{
  fromPCL(p.header, m.header); m.height = p.height; m.width = p.width; m.fields.clear();
  for (auto & f : p.fields) {sensor_msgs::msg::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; m.fields.push_back(g);}
  m.is_bigendian = p.is_bigendian; m.point_step = p.point_step; m.row_step = p.row_step; m.is_dense = p.is_dense; m.data = p.data;
}
inline void moveToPCL(sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p) {toPCL(m, p);}
inline void moveFromPCL(pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m) {fromPCL(p, m);}
}
namespace pcl {
template<typename T> void fromROSMsg(const sensor_msgs::msg::PointCloud2 & m, pcl::PointCloud<T> & c)
{ pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p); pcl::fromPCLPointCloud2(p, c); }
template<typename T> void toROSMsg(const pcl::PointCloud<T> & c, sensor_msgs::msg::PointCloud2 & m)
{ pcl::PCLPointCloud2 p; pcl::toPCLPointCloud2(c, p); pcl_conversions::fromPCL(p, m); }
namespace io {
inline int loadPCDFile(const std::string & f, sensor_msgs::msg::PointCloud2 & m)
{ pcl::PCLPointCloud2 p; int r = pcl::io::loadPCDFile(f, p); pcl_conversions::fromPCL(p, m); return r; }
inline int savePCDFile(const std::string & f, const sensor_msgs::msg::PointCloud2 & m)
{ pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p); return pcl::io::savePCDFile(f, p); }
}
}
