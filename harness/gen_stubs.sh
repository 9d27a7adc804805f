#!/bin/bash
# forwarding headers at the include paths of the real packages
cd "$(dirname "$0")/stubs" || exit 1
f() { mkdir -p "$(dirname "inc/$1")"; up=$(dirname "$1" | sed -E 's#[^/]+#..#g'); printf '#pragma once\n#include "%s/../%s"\n' "$up" "$2" > "inc/$1"; }
for m in builtin_interfaces/msg/time builtin_interfaces/msg/duration std_msgs/msg/header std_msgs/msg/color_rgba std_msgs/msg/string \
  geometry_msgs/msg/{point,vector3,quaternion,pose,pose_stamped,pose_array,pose_with_covariance,pose_with_covariance_stamped,twist,twist_stamped,twist_with_covariance,twist_with_covariance_stamped,transform,transform_stamped} \
  nav_msgs/msg/{odometry,path} sensor_msgs/msg/{point_cloud2,point_field,imu} visualization_msgs/msg/marker; do f $m.hpp ros_msgs.hpp; done
for h in rclcpp logging duration time clock node publisher subscription timer qos executors exceptions parameter utilities create_timer; do f rclcpp/$h.hpp rclcpp_stub.hpp; done
for h in tf2/LinearMath/Quaternion.h tf2/LinearMath/Matrix3x3.h tf2/LinearMath/Vector3.h tf2/utils.h tf2/convert.h tf2/time.h tf2/exceptions.h tf2/buffer_core.h tf2/buffer_core.hpp \
  tf2_ros/transform_listener.h tf2_ros/transform_broadcaster.h tf2_ros/static_transform_broadcaster.h tf2_ros/buffer.h \
  tf2_eigen/tf2_eigen.hpp tf2_eigen/tf2_eigen.h tf2_geometry_msgs/tf2_geometry_msgs.hpp tf2_geometry_msgs/tf2_geometry_msgs.h; do f $h tf2_stub.hpp; done
for h in subscriber synchronizer time_synchronizer sync_policies/exact_time; do f message_filters/$h.h mf_stub.hpp; f message_filters/$h.hpp mf_stub.hpp; done
f pcl_conversions/pcl_conversions.h pcl_conv_stub.hpp
f rcpputils/filesystem_helper.hpp rcpputils_stub.hpp
f rclcpp_components/register_node_macro.hpp components_stub.hpp
