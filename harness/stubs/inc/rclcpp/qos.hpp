#pragma once
#include "../../rclcpp_stub.hpp"
