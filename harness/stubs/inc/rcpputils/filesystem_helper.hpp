#pragma once
#include "../../rcpputils_stub.hpp"
