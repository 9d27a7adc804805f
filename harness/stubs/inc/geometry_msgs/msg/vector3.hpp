#pragma once
#include "../../../ros_msgs.hpp"
