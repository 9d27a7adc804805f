#pragma once
#include <filesystem>
#include <string>
namespace rcpputils::fs { inline bool exists(const std::string & p) {return std::filesystem::exists(p);}
using path = std::filesystem::path; }
