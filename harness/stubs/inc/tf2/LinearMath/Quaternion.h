#pragma once
#include "../../../tf2_stub.hpp"
