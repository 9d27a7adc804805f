// What the mapping node left behind in its working directory.
#include <filesystem>
#include <fstream>
#include <sstream>
#include <pcl/PCLPointCloud2.h>
#include <pcl/io/pcd_io.h>
#include "vjson.hpp"
json ReadMap(const std::string & name)
{
  json f = {{"exists", std::filesystem::exists(name)}, {"read", false}, {"text", ""}, {"fields", json::array()}, {"points", json::array()}};
  if (!f["exists"]) return f;
  std::ifstream in(name, std::ios::binary); std::stringstream s; s << in.rdbuf(); if (s.str().size() < 20) f["text"] = s.str();
  pcl::PCLPointCloud2 c; if (f["text"] != "" || pcl::io::loadPCDFile(name, c) != 0) return f;
  f["read"] = true; json names = json::array(), pts = json::array();
  for (auto & g : c.fields) names.push_back(g.name);
  for (size_t i = 0; i < size_t(c.width) * c.height; i++) {json r = json::array(); for (auto & g : c.fields) r.push_back(S(UnpackValue(&c.data[i * c.point_step + g.offset], g.datatype, false))); pts.push_back(r);}
  f["fields"] = names; f["points"] = pts; return f;
}
json VfExtra(const json &)
{
  json others = json::array();
  for (auto & p : std::filesystem::recursive_directory_iterator(".")) if (p.is_regular_file() && p.path().string() != "./maps/edge.pcd" && p.path().filename() != ".keep") others.push_back(p.path().string());
  return {{"file", ReadMap("maps/edge.pcd")}, {"others", others}};
}
