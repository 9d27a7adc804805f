// Runs the shared library, rotation and statistics functions on given inputs.
#include <filesystem>
#include <range/v3/all.hpp>
#include <rclcpp/rclcpp.hpp>
#include "forkrun.hpp"
#include "matjson.hpp"
#include "lidar_feature_library/algorithm.hpp"
#include "lidar_feature_library/convert_point_cloud_type.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"
#include "lidar_feature_library/downsample.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/numeric.hpp"
#include "lidar_feature_library/pcl_utils.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/random.hpp"
#include "lidar_feature_library/ros_msg.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_library/stats.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "lidar_feature_localization/robust.hpp"
#include "rotationlib/hat.hpp"
#include "rotationlib/jacobian/quaternion.hpp"
#include "rotationlib/quaternion.hpp"

static rclcpp::Time Stamp(const json & j) {return rclcpp::Time(j["sec"].get<int>(), j["nsec"].get<unsigned>(), RCL_ROS_TIME);}
template<typename H> static json JH(const H & h) {return {{"sec", int64_t(h.stamp.sec)}, {"nsec", int64_t(h.stamp.nanosec)}, {"frame", h.frame_id}};}
template<typename P> static json J3(const P & p) {return {S(p.x), S(p.y), S(p.z)};}
template<typename Q> static json J4(const Q & q) {return {S(q.w), S(q.x), S(q.y), S(q.z)};}
static json JPose(const geometry_msgs::msg::Pose & p) {return {{"p", J3(p.position)}, {"q", J4(p.orientation)}};}
static geometry_msgs::msg::Pose MsgPose(const json & j)
{
  geometry_msgs::msg::Pose m; m.position.x = N(j["p"][0]); m.position.y = N(j["p"][1]); m.position.z = N(j["p"][2]);
  m.orientation.w = N(j["q"][0]); m.orientation.x = N(j["q"][1]); m.orientation.y = N(j["q"][2]); m.orientation.z = N(j["q"][3]); return m;
}
template<typename A> static json J36(const A & a) {json r = json::array(); for (double x : a) r.push_back(S(x)); return r;}
static Matrix6d M6(const json & j) {return EM(j);}
template<typename F> static json Guard(F f) {try {return {{"ok", true}, {"v", f()}};} catch (const std::exception &) {return {{"ok", false}};}}
static pcl::PointCloud<PointXYZIR>::Ptr Ir(const json & j)
{
  pcl::PointCloud<PointXYZIR>::Ptr c(new pcl::PointCloud<PointXYZIR>());
  for (auto & p : j) c->push_back(PointXYZIR(float(N(p[0])), float(N(p[1])), float(N(p[2])), float(N(p[3])), uint16_t(N(p[4])))); return c;
}
static json JIr(const pcl::PointCloud<PointXYZIR> & c) {json r = json::array(); for (auto & p : c) r.push_back({S(p.x), S(p.y), S(p.z), S(p.intensity), S(double(p.ring))}); return r;}
static pcl::PointCloud<PointXYZCR>::Ptr Cr(const json & j)
{
  pcl::PointCloud<PointXYZCR>::Ptr c(new pcl::PointCloud<PointXYZCR>());
  for (auto & p : j) c->push_back(PointXYZCR(float(N(p[0])), float(N(p[1])), float(N(p[2])), float(N(p[3])), uint16_t(N(p[4])))); return c;
}
static json JCr(const pcl::PointCloud<PointXYZCR> & c) {json r = json::array(); for (auto & p : c) r.push_back({S(p.x), S(p.y), S(p.z), S(p.curvature), S(double(p.ring))}); return r;}

static json Run(const json & s)
{
  const std::string op = s.at("op");
  // rotations
  if (op == "hat") return JM(rotationlib::Hat(EV(s["v"])));
  if (op == "left") return JM(rotationlib::LeftMultiplicationMatrix(EQ(s["q"])));
  if (op == "right") return JM(rotationlib::RightMultiplicationMatrix(EQ(s["q"])));
  if (op == "rpy") return JQ(rotationlib::RPYToQuaternionXYZ(N(s["v"][0]), N(s["v"][1]), N(s["v"][2])));
  if (op == "exp") return JQ(AngleAxisToQuaternion(EV(s["v"])));
  if (op == "drpdq") return JM(rotationlib::DRpDq(EQ(s["q"]), EV(s["p"])));
  if (op == "wxyz") {const Eigen::Vector4d v = EV(s["v"]); return {{"q", JQ(rotationlib::FromWXYZ(v))}, {"v", JV(rotationlib::ToWXYZ(EQ(s["v"])))}};}
  // statistics
  if (op == "median") return {{"v", Try([&] {return json(S(Median(Eigen::VectorXd(EV(s["v"])))));})}, {"a", Try([&] {return json(S(Median(Eigen::ArrayXd(EV(s["v"]).array()))));})}};
  if (op == "mad") return Try([&] {return json(S(MedianAbsoluteDeviation(EV(s["v"]))));});
  if (op == "scale") return Try([&] {return json(S(Scale(EV(s["v"]))));});
  if (op == "huber") return {{"c", S(Huber(N(s["e"]), N(s["k"])))}, {"d", S(HuberDerivative(N(s["e"]), N(s["k"])))}};
  if (op == "huber0") return {{"c", S(Huber(N(s["e"])))}, {"d", S(HuberDerivative(N(s["e"])))}};
  if (op == "sort3") return JV(SortThreeValues(EV(s["v"])));
  if (op == "sd") return S(SampleStandardDeviation(EV(s["v"])));
  if (op == "shuffle") {json r = json::array(); for (size_t i : RandomizedUniqueIndices(s["n"].get<size_t>())) r.push_back(int64_t(i)); return r;}
  if (op == "special") {const Eigen::MatrixXd m = EM(s["m"]); return {{"inf", HasInf(m)}, {"nan", HasNan(m)}};}
  if (op == "radian") return S(DegreeToRadian(N(s["v"])));
  // messages and matrices
  if (op == "pose") {const auto T = EP(s["pose"]); const auto m = MakePose(T); return {{"msg", JPose(m)}, {"back", JP(GetIsometry3d(m))}};}
  if (op == "pose_msg") return JP(GetIsometry3d(MsgPose(s["msg"])));
  if (op == "stamped") {
    const auto T = EP(s["pose"]); const auto t = Stamp(s["stamp"]); const std::string f = s["frame"], c = s["child"];
    const auto a = MakePoseStamped(T, t, f); const auto b = MakePoseWithCovarianceStamped(T, M6(s["cov"]), t, f); const auto d = MakeTransformStamped(T, t, f, c);
    const auto e = MakePoseWithCovariance(T, M6(s["cov"]));
    return {{"pose", {{"h", JH(a.header)}, {"pose", JPose(a.pose)}}}, {"cov", {{"h", JH(b.header)}, {"pose", JPose(b.pose.pose)}, {"cov", J36(b.pose.covariance)}}},
      {"tf", {{"h", JH(d.header)}, {"child", d.child_frame_id}, {"pose", {{"p", J3(d.transform.translation)}, {"q", J4(d.transform.rotation)}}}}},
      {"bare", {{"pose", JPose(e.pose)}, {"cov", J36(e.covariance)}}}};
  }
  if (op == "twist") {
    const auto m = MakeTwistStamped(EV(s["l"]), EV(s["a"]), Stamp(s["stamp"]), s["frame"]); const auto n = MakeTwist(EV(s["l"]), EV(s["a"]));
    return {{"h", JH(m.header)}, {"l", J3(m.twist.linear)}, {"a", J3(m.twist.angular)}, {"bl", J3(n.linear)}, {"ba", J3(n.angular)}};
  }
  if (op == "vector") {
    const Eigen::Vector3d v = EV(s["v"]); const auto p = MakePoint(v); const auto w = MakeVector3(v);
    geometry_msgs::msg::Quaternion q; q.w = N(s["q"][0]); q.x = N(s["q"][1]); q.y = N(s["q"][2]); q.z = N(s["q"][3]);
    return {{"point", J3(p)}, {"vector", J3(w)}, {"p", JV(ToVector3d(p))}, {"v", JV(ToVector3d(w))}, {"q", JQ(ToQuaterniond(q))}, {"xyz", JC(std::vector<pcl::PointXYZ>{MakePointXYZ(v)})}};
  }
  if (op == "covariance") {
    std::array<double, 36> a; for (int i = 0; i < 36; i++) a[i] = N(s["a"][i]);
    const Matrix6d m = GetEigenCovariance(a); return {{"m", JM(m)}, {"back", J36(FromEigenCovariance(m))}, {"from", J36(FromEigenCovariance(M6(s["m"])))}};
  }
  if (op == "marker") {
    auto m = InitLines(Stamp(s["stamp"]), s["frame"]); SetWidth(m, N(s["width"])); SetColor(m, N(s["c"][0]), N(s["c"][1]), N(s["c"][2]), N(s["c"][3]));
    for (auto & l : s["lines"]) AddLine(m, EV(l[0]), EV(l[1]));
    json pts = json::array(); for (auto & p : m.points) pts.push_back(J3(p));
    return {{"h", JH(m.header)}, {"list", m.type == visualization_msgs::msg::Marker::LINE_LIST}, {"points", pts}, {"width", S(double(m.scale.x))}, {"c", {S(m.color.r), S(m.color.g), S(m.color.b), S(m.color.a)}}};
  }
  // rows and stacks
  if (op == "rows") {std::vector<std::uint64_t> i; for (auto & x : s["idx"]) i.push_back(x.get<uint64_t>()); return JM(GetRows(EM(s["m"]), i));}
  if (op == "stack") {
    std::vector<Eigen::Vector3d> v; for (auto & x : s["v"]) v.push_back(EV(x)); std::vector<Eigen::Matrix<double, 2, 3>> m; for (auto & x : s["m"]) m.push_back(EM(x));
    return {{"v", JM(VectorsToEigen<3>(v))}, {"m", JM(HorizontalStack<2, 3>(m))}, {"flat", JV(VectorToEigen(Vec(s["flat"])))}};
  }
  if (op == "xform") return JV(TransformXYZ(EP(s["pose"]), EV(s["v"])));
  if (op == "isometry") return JP(MakeIsometry3d(EQ(s["q"]), EV(s["t"])));
  if (op == "by_index") {
    std::vector<size_t> i; for (auto & x : s["idx"]) i.push_back(x.get<size_t>()); const auto v = s["v"].get<std::vector<int>>();
    return {{"v", Guard([&] {return json(GetByIndices(i, v));})}, {"where", GetIndicesByValue(v, s["label"].get<int>())}};
  }
  if (op == "span") {
    auto v = s["v"].get<std::vector<int>>(); const auto cv = v; const int a = s["from"], b = s["to"]; span<int> sp(v.begin() + a, v.begin() + b); const const_span<int> cs(cv.begin() + a, cv.begin() + b);
    json r = json::array(); for (int i : s["at"].get<std::vector<int>>()) r.push_back({{"s", Guard([&] {return sp.at(i);})}, {"c", Guard([&] {return cs.at(i);})}});
    json w = json::array(); if (sp.size() > 0) {sp.at(sp.size() - 1) = 77;}
    return {{"at", r}, {"size", sp.size()}, {"csize", cs.size()}, {"all", std::vector<int>(cs.begin(), cs.end())}, {"after", v}};
  }
  // clouds
  if (op == "cloud") {
    const auto c = XYZ(s["pts"]); const auto cr = Cr(s["pts"]); const auto ir = Ir(s["pts"]); const auto T = EP(s["pose"]);
    json e = json::array(); for (auto & v : PointsToEigen<pcl::PointXYZ>(std::vector<pcl::PointXYZ>(c->begin(), c->end()))) e.push_back(JV(v));
    json g = json::array(); for (auto & p : *cr) g.push_back(JV(GetXYZ(p)));
    return {{"get", JM(Get(c, s["idx"].get<std::vector<int>>()))}, {"points", e}, {"xyz", g}, {"moved", JC(*TransformPointCloud<pcl::PointXYZ>(T, c))},
      {"moved_cr", JCr(*TransformPointCloud<PointXYZCR>(T, cr))}, {"plain", JC(*ToPointXYZ<PointXYZCR>(cr))}, {"to_ir", JIr(*ConvertPointCloudType<PointXYZCR, PointXYZIR>(cr))},
      {"refused", !Guard([&] {ThrowsIfPointCloudIsEmpty<PointXYZIR>(ir); return 1;})["ok"].get<bool>()}, {"kept", JC(*c)}};
  }
  if (op == "downsample") return JC(*Downsample<pcl::PointXYZ>(XYZ(s["pts"]), float(N(s["leaf"]))));
  if (op == "ros_cloud") {
    const auto m = ToRosMsg<PointXYZIR>(Ir(s["pts"]), Stamp(s["stamp"]), s["frame"].get<std::string>()); const auto n = ToRosMsg<PointXYZCR>(Cr(s["pts"]));
    return {{"h", JH(m.header)}, {"back", JIr(*GetPointCloud<PointXYZIR>(m))}, {"xyz", JC(*GetPointCloud<pcl::PointXYZ>(m))}, {"n", int64_t(m.width) * int64_t(m.height)},
      {"cr", JCr(*GetPointCloud<PointXYZCR>(n))}, {"crxyz", JC(*GetPointCloud<pcl::PointXYZ>(n))}};
  }
  throw std::runtime_error("scenario: unknown op " + op);
}

int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  const char * lim = getenv("VF_LIMIT");
  return ForkRun(argv[1], argv[2], argv[3], lim ? atoi(lim) : 20, [&](const json & sc, Emitter & emit) {
      for (auto & st : sc.at("steps")) emit({{"ev", "Op"}, {"step", st}, {"res", Run(st)}});
      emit({{"ev", "End"}, {"step", json::object()}, {"res", 0}});
    });
}
