// JSON <-> messages.  Doubles travel as strings ("%.17g", nan, inf, -inf).
#pragma once
#include <cmath>
#include <cstring>
#include <string>
#include <nlohmann/json.hpp>
#include "ros_msgs.hpp"

using json = nlohmann::json;

inline std::string S(double v)
{
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  char b[64]; snprintf(b, sizeof b, "%.17g", v); return b;
}
inline double N(const json & j)
{
  if (j.is_string()) return std::strtod(j.get_ref<const std::string &>().c_str(), nullptr);
  return j.get<double>();
}
inline double N(const json & j, const char * k, double d) {return j.contains(k) ? N(j.at(k)) : d;}

// ---- from JSON
inline builtin_interfaces::msg::Time JTime(const json & j)
{ builtin_interfaces::msg::Time t; t.sec = j.at("sec").get<int32_t>(); t.nanosec = j.at("nsec").get<uint32_t>(); return t; }
inline std_msgs::msg::Header JHeader(const json & j)
{ std_msgs::msg::Header h; h.stamp = JTime(j.at("stamp")); h.frame_id = j.value("frame", std::string("")); return h; }
inline geometry_msgs::msg::Pose JPose(const json & j)
{
  geometry_msgs::msg::Pose p; auto & a = j.at("p"); auto & q = j.at("q");   // q = [w,x,y,z]
  p.position.x = N(a[0]); p.position.y = N(a[1]); p.position.z = N(a[2]);
  p.orientation.w = N(q[0]); p.orientation.x = N(q[1]); p.orientation.y = N(q[2]); p.orientation.z = N(q[3]);
  return p;
}
inline std::array<double, 36> JCov(const json & j)
{ std::array<double, 36> c{}; for (size_t i = 0; i < 36 && i < j.size(); i++) c[i] = N(j[i]); return c; }
inline geometry_msgs::msg::Twist JTwist(const json & j)
{
  geometry_msgs::msg::Twist t; auto & l = j.at("l"); auto & a = j.at("a");
  t.linear.x = N(l[0]); t.linear.y = N(l[1]); t.linear.z = N(l[2]);
  t.angular.x = N(a[0]); t.angular.y = N(a[1]); t.angular.z = N(a[2]); return t;
}
inline geometry_msgs::msg::Transform JTransform(const json & j)
{
  geometry_msgs::msg::Transform t; auto p = JPose(j);
  t.translation.x = p.position.x; t.translation.y = p.position.y; t.translation.z = p.position.z; t.rotation = p.orientation; return t;
}
inline int FieldSize(int dt)
{ switch (dt) {case 1: case 2: return 1; case 3: case 4: return 2; case 5: case 6: case 7: return 4; case 8: return 8;} return 0; }
inline void PackValue(uint8_t * d, int dt, double v, bool big)
{
  uint8_t b[8] = {0}; int n = FieldSize(dt);
  switch (dt) {
    case 1: {int8_t x = v; memcpy(b, &x, 1); break;} case 2: {uint8_t x = v; memcpy(b, &x, 1); break;}
    case 3: {int16_t x = v; memcpy(b, &x, 2); break;} case 4: {uint16_t x = v; memcpy(b, &x, 2); break;}
    case 5: {int32_t x = v; memcpy(b, &x, 4); break;} case 6: {uint32_t x = v; memcpy(b, &x, 4); break;}
    case 7: {float x = v; memcpy(b, &x, 4); break;} case 8: {memcpy(b, &v, 8); break;}
  }
  for (int i = 0; i < n; i++) d[i] = big ? b[n - 1 - i] : b[i];
}
inline double UnpackValue(const uint8_t * d, int dt, bool big)
{
  uint8_t b[8]; int n = FieldSize(dt);
  for (int i = 0; i < n; i++) b[i] = big ? d[n - 1 - i] : d[i];
  switch (dt) {
    case 1: {int8_t x; memcpy(&x, b, 1); return x;} case 2: return b[0];
    case 3: {int16_t x; memcpy(&x, b, 2); return x;} case 4: {uint16_t x; memcpy(&x, b, 2); return x;}
    case 5: {int32_t x; memcpy(&x, b, 4); return x;} case 6: {uint32_t x; memcpy(&x, b, 4); return x;}
    case 7: {float x; memcpy(&x, b, 4); return x;} case 8: {double x; memcpy(&x, b, 8); return x;}
  }
  return 0;
}
// {"header","fields":[[name,offset,datatype,count]..],"point_step","height","width","dense","big","points":[[v per field]..]}
inline sensor_msgs::msg::PointCloud2 JCloud(const json & j)
{
  sensor_msgs::msg::PointCloud2 m; m.header = JHeader(j.at("header"));
  for (auto & f : j.at("fields")) {
    sensor_msgs::msg::PointField g; g.name = f[0]; g.offset = f[1]; g.datatype = f[2]; g.count = f[3]; m.fields.push_back(g);}
  m.point_step = j.at("point_step"); m.is_bigendian = j.value("big", false); m.is_dense = j.value("dense", true);
  auto & pts = j.at("points"); size_t n = pts.size();
  m.height = j.value("height", 1u); m.width = j.value("width", static_cast<uint32_t>(n)); m.row_step = m.point_step * m.width;
  m.data.assign(n * m.point_step, 0);
  for (size_t i = 0; i < n; i++) for (size_t f = 0; f < m.fields.size(); f++)
      PackValue(&m.data[i * m.point_step + m.fields[f].offset], m.fields[f].datatype, N(pts[i][f]), m.is_bigendian);
  return m;
}
// ---- to JSON
inline json TJ(const builtin_interfaces::msg::Time & t) {return {{"sec", t.sec}, {"nsec", t.nanosec}};}
inline json TJ(const std_msgs::msg::Header & h) {return {{"stamp", TJ(h.stamp)}, {"frame", h.frame_id}};}
inline json TJ(const geometry_msgs::msg::Pose & p)
{
  return {{"p", {S(p.position.x), S(p.position.y), S(p.position.z)}},
    {"q", {S(p.orientation.w), S(p.orientation.x), S(p.orientation.y), S(p.orientation.z)}}};
}
inline json TJ(const std::array<double, 36> & c) {json r = json::array(); for (double v : c) r.push_back(S(v)); return r;}
inline json TJ(const geometry_msgs::msg::Twist & t)
{ return {{"l", {S(t.linear.x), S(t.linear.y), S(t.linear.z)}}, {"a", {S(t.angular.x), S(t.angular.y), S(t.angular.z)}}}; }
inline json TJ(const geometry_msgs::msg::PoseStamped & m) {return {{"header", TJ(m.header)}, {"pose", TJ(m.pose)}};}
inline json TJ(const geometry_msgs::msg::PoseWithCovarianceStamped & m)
{ return {{"header", TJ(m.header)}, {"pose", TJ(m.pose.pose)}, {"cov", TJ(m.pose.covariance)}}; }
inline json TJ(const geometry_msgs::msg::TwistStamped & m) {return {{"header", TJ(m.header)}, {"twist", TJ(m.twist)}};}
inline json TJ(const geometry_msgs::msg::TransformStamped & m)
{
  geometry_msgs::msg::Pose p; p.position.x = m.transform.translation.x; p.position.y = m.transform.translation.y; p.position.z = m.transform.translation.z;
  p.orientation = m.transform.rotation;
  return {{"header", TJ(m.header)}, {"child", m.child_frame_id}, {"pose", TJ(p)}};
}
inline json TJ(const nav_msgs::msg::Odometry & m)
{
  return {{"header", TJ(m.header)}, {"child", m.child_frame_id}, {"pose", TJ(m.pose.pose)}, {"pcov", TJ(m.pose.covariance)},
    {"twist", TJ(m.twist.twist)}, {"tcov", TJ(m.twist.covariance)}};
}
inline json TJ(const nav_msgs::msg::Path & m)
{ json a = json::array(); for (auto & p : m.poses) a.push_back(TJ(p)); return {{"header", TJ(m.header)}, {"poses", a}}; }
inline json TJ(const sensor_msgs::msg::PointCloud2 & m)
{
  json f = json::array(), pts = json::array();
  for (auto & g : m.fields) f.push_back({g.name, g.offset, g.datatype, g.count});
  size_t n = size_t(m.width) * m.height; bool ok = m.data.size() == n * m.point_step;
  for (size_t i = 0; ok && i < n; i++) {
    json r = json::array();
    for (auto & g : m.fields) {
      if (g.offset + FieldSize(g.datatype) > m.point_step) {ok = false; break;}
      if (g.name == "rgb") {uint32_t c; memcpy(&c, &m.data[i * m.point_step + g.offset], 4); r.push_back(c & 0xffffffu); continue;}
      r.push_back(S(UnpackValue(&m.data[i * m.point_step + g.offset], g.datatype, m.is_bigendian)));
    }
    pts.push_back(r);
  }
  return {{"header", TJ(m.header)}, {"fields", f}, {"height", m.height}, {"width", m.width}, {"step", m.point_step},
    {"row_step", m.row_step}, {"big", m.is_bigendian}, {"dense", m.is_dense}, {"wellformed", ok}, {"points", pts}};
}
