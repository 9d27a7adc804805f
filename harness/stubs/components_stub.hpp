#pragma once
#include "rclcpp_stub.hpp"
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define RCLCPP_COMPONENTS_REGISTER_NODE(C) \
  namespace { const bool VF_CAT(vf_component_, __COUNTER__) = [] { \
      sim::W().components[#C] = [] {return std::static_pointer_cast<void>(std::make_shared<C>(rclcpp::NodeOptions()));}; return true;} (); }
