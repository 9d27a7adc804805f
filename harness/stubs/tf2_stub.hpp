#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <chrono>
#include <cmath>
#include <stdexcept>
#include "rclcpp_stub.hpp"
// tf2: quaternion and matrix arithmetic as in tf2/LinearMath, transforms from sim::World::tf
namespace tf2 {
class Vector3 { public: Vector3(double x = 0, double y = 0, double z = 0) : v{x, y, z} {}
  double x() const {return v[0];} double y() const {return v[1];} double z() const {return v[2];}
  double getX() const {return v[0];} double getY() const {return v[1];} double getZ() const {return v[2];}
private: double v[3]; };
class Quaternion { public:
  Quaternion() {} Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  void setRPY(double roll, double pitch, double yaw) {
    double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    double cy = cos(hy), sy = sin(hy), cp = cos(hp), sp = sin(hp), cr = cos(hr), sr = sin(hr);
    x_ = sr * cp * cy - cr * sp * sy; y_ = cr * sp * cy + sr * cp * sy; z_ = cr * cp * sy - sr * sp * cy; w_ = cr * cp * cy + sr * sp * sy; }
  double x() const {return x_;} double y() const {return y_;} double z() const {return z_;} double w() const {return w_;}
  double getX() const {return x_;} double getY() const {return y_;} double getZ() const {return z_;} double getW() const {return w_;}
  double length2() const {return x_ * x_ + y_ * y_ + z_ * z_ + w_ * w_;}
  Quaternion & normalize() {double n = std::sqrt(length2()); x_ /= n; y_ /= n; z_ /= n; w_ /= n; return *this;}
private: double x_ = 0, y_ = 0, z_ = 0, w_ = 1; };
class Matrix3x3 { public:
  explicit Matrix3x3(const Quaternion & q) {
    double d = q.length2(), s = 2.0 / d;
    double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    double t[3][3] = {{1.0 - (yy + zz), xy - wz, xz + wy}, {xy + wz, 1.0 - (xx + zz), yz - wx}, {xz - wy, yz + wx, 1.0 - (xx + yy)}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = t[i][j]; }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned = 1) const {
    if (std::fabs(m[2][0]) >= 1) {
      yaw = 0;
      if (m[2][0] < 0) {pitch = M_PI / 2.0; roll = std::atan2(m[0][1], m[0][2]);}
      else {pitch = -M_PI / 2.0; roll = std::atan2(-m[0][1], -m[0][2]);}
    } else {
      pitch = -std::asin(m[2][0]);
      roll = std::atan2(m[2][1] / std::cos(pitch), m[2][2] / std::cos(pitch));
      yaw = std::atan2(m[1][0] / std::cos(pitch), m[0][0] / std::cos(pitch));
    } }
  void getEulerYPR(double & y, double & p, double & r, unsigned = 1) const {getRPY(r, p, y);}
private: double m[3][3]; };

inline void fromMsg(const geometry_msgs::msg::Quaternion & in, Quaternion & out) {out = Quaternion(in.x, in.y, in.z, in.w);}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q)
{ geometry_msgs::msg::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }
inline void convert(const geometry_msgs::msg::Quaternion & a, Quaternion & b) {fromMsg(a, b);}
inline void convert(const Quaternion & a, geometry_msgs::msg::Quaternion & b) {b = toMsg(a);}

inline double getYaw(const Quaternion & q)
{
  double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) {return -2 * std::atan2(q.y(), q.x());}
  if (sarg >= 0.99999) {return 2 * std::atan2(q.y(), q.x());}
  return std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
inline double getYaw(const geometry_msgs::msg::Quaternion & m) {Quaternion q; fromMsg(m, q); return getYaw(q);}

using TimePoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
using Duration = std::chrono::nanoseconds;
inline const TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds(0));
inline TimePoint timeFromSec(double s) {return TimePoint(std::chrono::nanoseconds(int64_t(s * 1e9)));}
inline Duration durationFromSec(double s) {return Duration(int64_t(s * 1e9));}
class TransformException : public std::runtime_error { public: explicit TransformException(const std::string & s) : std::runtime_error(s) {} };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class InvalidArgumentException : public TransformException { public: using TransformException::TransformException; };
class TimeoutException : public TransformException { public: using TransformException::TransformException; };

class BufferCore { public:
  BufferCore() {} template<typename T> explicit BufferCore(T) {}
  virtual ~BufferCore() = default;
  template<typename ... A> geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, A...) const
  {
    auto & w = sim::W(); w.tf_attempts++;
    if (target.empty() || source.empty()) throw InvalidArgumentException("frame_id cannot be empty");
    if (target[0] == '/' || source[0] == '/') throw InvalidArgumentException("frame_ids cannot start with a '/'");
    if (target == source) {geometry_msgs::msg::TransformStamped t; t.header.frame_id = target; t.child_frame_id = source; return t;}
    auto i = w.tf.find({target, source});
    if (i == w.tf.end() || i->second.after_attempts >= w.tf_attempts) throw LookupException("\"" + source + "\" does not exist");
    return i->second.tf;
  }
  template<typename ... A> bool canTransform(const std::string & t, const std::string & s, A ... a) const
  { try {lookupTransform(t, s, a...); return true;} catch (TransformException &) {return false;} }
};

// tf2_eigen
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & out)
{ out = Eigen::Isometry3d(Eigen::Translation3d(m.position.x, m.position.y, m.position.z) * Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z)); }
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Affine3d & out)
{ out = Eigen::Affine3d(Eigen::Translation3d(m.position.x, m.position.y, m.position.z) * Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z)); }
inline void fromMsg(const geometry_msgs::msg::Point & m, Eigen::Vector3d & o) {o = Eigen::Vector3d(m.x, m.y, m.z);}
inline void fromMsg(const geometry_msgs::msg::Vector3 & m, Eigen::Vector3d & o) {o = Eigen::Vector3d(m.x, m.y, m.z);}
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Eigen::Quaterniond & o) {o = Eigen::Quaterniond(m.w, m.x, m.y, m.z);}
template<int M> geometry_msgs::msg::Pose VfToMsg(const Eigen::Transform<double, 3, M> & in)
{
  geometry_msgs::msg::Pose m;
  m.position.x = in.translation().x(); m.position.y = in.translation().y(); m.position.z = in.translation().z();
  Eigen::Quaterniond q(in.linear());
  m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); m.orientation.w = q.w();
  if (m.orientation.w < 0) {m.orientation.x *= -1; m.orientation.y *= -1; m.orientation.z *= -1; m.orientation.w *= -1;}
  return m;
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in) {return VfToMsg(in);}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Affine3d & in) {return VfToMsg(in);}
inline geometry_msgs::msg::Point toMsg(const Eigen::Vector3d & v) {geometry_msgs::msg::Point p; p.x = v(0); p.y = v(1); p.z = v(2); return p;}
inline geometry_msgs::msg::Quaternion toMsg(const Eigen::Quaterniond & q) {geometry_msgs::msg::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m;}
template<int M> geometry_msgs::msg::TransformStamped VfToTf(const Eigen::Transform<double, 3, M> & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x(); t.transform.translation.y = T.translation().y(); t.transform.translation.z = T.translation().z();
  Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y(); t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T) {return VfToTf(T);}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & T) {return VfToTf(T);}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{ return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) * Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z)); }
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) {return transformToEigen(t.transform);}
inline void doTransform(const geometry_msgs::msg::Pose & in, geometry_msgs::msg::Pose & out, const geometry_msgs::msg::TransformStamped & t)
{ Eigen::Isometry3d p; fromMsg(in, p); out = toMsg(Eigen::Isometry3d(transformToEigen(t) * p)); }
inline void doTransform(const geometry_msgs::msg::Point & in, geometry_msgs::msg::Point & out, const geometry_msgs::msg::TransformStamped & t)
{ Eigen::Vector3d p; fromMsg(in, p); out = toMsg(Eigen::Vector3d(transformToEigen(t) * p)); }
inline void doTransform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const geometry_msgs::msg::TransformStamped & t)
{ doTransform(in.pose, out.pose, t); out.header = t.header; }
}  // namespace tf2

namespace tf2_ros {
class Buffer : public tf2::BufferCore { public: using tf2::BufferCore::BufferCore; };
class TransformListener { public:
  template<typename ... A> explicit TransformListener(tf2::BufferCore &, A && ...) {} };
class TransformBroadcaster { public:
  template<typename T> explicit TransformBroadcaster(T &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {sim::Publish("tf", "tf", t);}
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) {for (auto & t : v) sendTransform(t);} };
class StaticTransformBroadcaster { public:
  template<typename T> explicit StaticTransformBroadcaster(T &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {sim::Publish("tf_static", "tf", t);}
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) {for (auto & t : v) sendTransform(t);} };
}
