// Drives the map builder directly: the map after every cloud, the pose test, saving.
#include <filesystem>
#include <rclcpp/rclcpp.hpp>
#include "forkrun.hpp"
#include "matjson.hpp"
#include "lidar_feature_mapping/map.hpp"
json ReadMap(const std::string & name);
namespace sim { World & W() {static World w; return w;} void Log(const char *, const char *, ...) {} }
static json JMap(const pcl::PointCloud<PointXYZCR> & c) {json r = json::array(); for (auto & p : c) r.push_back({S(p.x), S(p.y), S(p.z), S(p.curvature), S(double(p.ring))}); return r;}
static geometry_msgs::msg::PoseStamped::SharedPtr Stamped(const json & j)
{
  auto m = std::make_shared<geometry_msgs::msg::PoseStamped>(); m->pose = JPose(j); return m;
}
int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  return ForkRun(argv[1], argv[2], argv[3], 20, [&](const json & sc, Emitter & emit) {
      MapBuilder<PointXYZCR> builder;
      for (auto & st : sc.at("steps")) {
        const std::string op = st.at("op");
        if (op == "cloud") {
          auto cloud = std::make_shared<sensor_msgs::msg::PointCloud2>(JCloud(st["msg"]));
          builder.Callback(cloud, Stamped(st["pose"]));
          emit({{"ev", "Cloud"}, {"pose", st["pose"]}, {"points", st["points"]}, {"map", JMap(*builder.map_->map_ptr_)}, {"empty", builder.map_->IsEmpty()}});
        } else if (op == "small") {
          emit({{"ev", "Small"}, {"a", st["a"]}, {"b", st["b"]}, {"metres", st["metres"]}, {"turn", st["turn"]},
              {"res", PoseDiffIsSufficientlySmall(EP(st["a"]), EP(st["b"]), N(st["metres"]), N(st["turn"]))}});
        } else {
          builder.SaveMap("out.pcd"); emit({{"ev", "Save"}, {"file", ReadMap("out.pcd")}});
        }
      }
    });
}
