// Message structs of the ROS 2 packages the repository uses (field names and types as in Humble).
#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#define VF_MSG(T) \
  using SharedPtr = std::shared_ptr<T>; \
  using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>; \
  using ConstPtr = std::shared_ptr<const T>; \
  using Ptr = std::shared_ptr<T>;

namespace builtin_interfaces::msg {
struct Time { VF_MSG(Time) int32_t sec = 0; uint32_t nanosec = 0;
  bool operator==(const Time & o) const {return sec == o.sec && nanosec == o.nanosec;}
  bool operator!=(const Time & o) const {return !(*this == o);} };
struct Duration { VF_MSG(Duration) int32_t sec = 0; uint32_t nanosec = 0; };
}
namespace std_msgs::msg {
struct Header { VF_MSG(Header) builtin_interfaces::msg::Time stamp; std::string frame_id; 
  bool operator==(const Header & o) const {return stamp == o.stamp && frame_id == o.frame_id;} };
struct ColorRGBA { VF_MSG(ColorRGBA) float r = 0, g = 0, b = 0, a = 0; };
struct String { VF_MSG(String) std::string data; };
}
namespace geometry_msgs::msg {
struct Point { VF_MSG(Point) double x = 0, y = 0, z = 0; };
struct Vector3 { VF_MSG(Vector3) double x = 0, y = 0, z = 0; };
struct Quaternion { VF_MSG(Quaternion) double x = 0, y = 0, z = 0, w = 1; };
struct Pose { VF_MSG(Pose) Point position; Quaternion orientation; };
struct PoseStamped { VF_MSG(PoseStamped) std_msgs::msg::Header header; Pose pose; };
struct PoseArray { VF_MSG(PoseArray) std_msgs::msg::Header header; std::vector<Pose> poses; };
struct PoseWithCovariance { VF_MSG(PoseWithCovariance) Pose pose; std::array<double, 36> covariance{}; };
struct PoseWithCovarianceStamped { VF_MSG(PoseWithCovarianceStamped) std_msgs::msg::Header header; PoseWithCovariance pose; };
struct Twist { VF_MSG(Twist) Vector3 linear; Vector3 angular; };
struct TwistStamped { VF_MSG(TwistStamped) std_msgs::msg::Header header; Twist twist; };
struct TwistWithCovariance { VF_MSG(TwistWithCovariance) Twist twist; std::array<double, 36> covariance{}; };
struct TwistWithCovarianceStamped { VF_MSG(TwistWithCovarianceStamped) std_msgs::msg::Header header; TwistWithCovariance twist; };
struct Transform { VF_MSG(Transform) Vector3 translation; Quaternion rotation; };
struct TransformStamped { VF_MSG(TransformStamped) std_msgs::msg::Header header; std::string child_frame_id; Transform transform; };
}
namespace nav_msgs::msg {
struct Odometry { VF_MSG(Odometry) std_msgs::msg::Header header; std::string child_frame_id;
  geometry_msgs::msg::PoseWithCovariance pose; geometry_msgs::msg::TwistWithCovariance twist; };
struct Path { VF_MSG(Path) std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses; };
}
namespace sensor_msgs::msg {
struct PointField { VF_MSG(PointField)
  static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0; };
struct PointCloud2 { VF_MSG(PointCloud2)
  std_msgs::msg::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields;
  bool is_bigendian = false; uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; bool is_dense = false; };
struct Imu { VF_MSG(Imu) std_msgs::msg::Header header; geometry_msgs::msg::Quaternion orientation;
  geometry_msgs::msg::Vector3 angular_velocity, linear_acceleration; };
}
namespace visualization_msgs::msg {
struct Marker { VF_MSG(Marker)
  static constexpr int32_t ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, POINTS = 8;
  static constexpr int32_t ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;
  std_msgs::msg::Header header; std::string ns; int32_t id = 0, type = 0, action = 0;
  geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color;
  builtin_interfaces::msg::Duration lifetime; bool frame_locked = false;
  std::vector<geometry_msgs::msg::Point> points; std::vector<std_msgs::msg::ColorRGBA> colors; std::string text; };
}
