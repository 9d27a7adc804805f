#pragma once
#include "../../components_stub.hpp"
