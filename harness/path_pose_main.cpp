// The path generator listening to plain poses.
#include <memory>
#include <rclcpp/rclcpp.hpp>
#include "path_generator/path_generator.hpp"
int main(int argc, char * argv[])
{
  rclcpp::init(argc, argv);
  rclcpp::spin(std::make_shared<FromPose>("path", "pose"));
  rclcpp::shutdown();
  return 0;
}
