#pragma once
#include "../../pcl_conv_stub.hpp"
