#pragma once
#include "../../mf_stub.hpp"
