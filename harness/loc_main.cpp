// Runs the building blocks of the localization package on given inputs and histories.
#include <filesystem>
#include <list>
#include <range/v3/all.hpp>
#include "forkrun.hpp"
#include "matjson.hpp"
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/degenerate.hpp"
#include "lidar_feature_localization/edge.hpp"
#include "lidar_feature_localization/jacobian.hpp"
#include "lidar_feature_localization/kdtree.hpp"
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/loam_optimization_problem.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "lidar_feature_localization/recent_scans.hpp"
#include "lidar_feature_localization/robust.hpp"
#include "lidar_feature_localization/stamp_sorted_objects.hpp"
#include "lidar_feature_localization/surface.hpp"

static Emitter * g_emit; static json * g_capture;
static void Note(const json & ev) {if (g_capture) g_capture->push_back(ev); else (*g_emit)(ev);}
static json g_log;
using Rows = std::tuple<std::vector<Eigen::MatrixXd>, std::vector<Eigen::VectorXd>>;
static json JR(const Rows & r) {return {{"J", JMs(std::get<0>(r))}, {"r", JVs(std::get<1>(r))}};}

// a registration problem that records what it is asked and answers from a list or from another problem
struct Probe {
  std::function<Rows(const Eigen::Isometry3d &, int)> make;
  std::shared_ptr<int> calls = std::make_shared<int>(0);
  Rows Make(const json &, const Eigen::Isometry3d & pose) const
  {
    const int k = (*calls)++;
    if (k > 500) throw std::runtime_error("problem asked more than 500 times");
    Rows r = make(pose, k);
    Note({{"ev", "Make"}, {"pose", JP(pose)}, {"J", JMs(std::get<0>(r))}, {"r", JVs(std::get<1>(r))}});
    return r;
  }
};
static Rows RowsOf(const json & j)
{ Rows r; for (auto & m : j["J"]) std::get<0>(r).push_back(EM(m)); for (auto & v : j["r"]) std::get<1>(r).push_back(EV(v)); return r; }

static void RunOptimizer(const json & s)
{
  Probe p; const std::string k = s["problem"];
  if (k == "script") {
    const json script = s["script"];
    p.make = [script](const Eigen::Isometry3d &, int i) {return RowsOf(script[std::min<size_t>(i, script.size() - 1)]);};
  } else if (k == "align") {
    const auto pts = std::make_tuple(EM(s["x"], 3), EM(s["y"], 3));
    p.make = [pts](const Eigen::Isometry3d & pose, int) {return AlignmentProblem().Make(pts, pose);};
  } else {
    auto prob = std::make_shared<LOAMOptimizationProblem<PointXYZToVector>>(XYZ(s["edge_map"]), XYZ(s["surface_map"]), s["k"].get<int>());
    const auto scan = std::make_tuple(XYZ(s["edge"]), XYZ(s["surface"]));
    p.make = [prob, scan](const Eigen::Isometry3d & pose, int) {return prob->Make(scan, pose);};
  }
  const auto initial = EP(s["pose"]);
  Note({{"ev", "Begin"}, {"pose", JP(initial)}, {"max", s["max"]}, {"q", JQ(Eigen::Quaterniond(initial.linear()))}});
  const Optimizer<Probe, json> opt(p, s["max"].get<int>());
  const OptimizationResult r = opt.Run(s, initial);
  Note({{"ev", "Result"}, {"pose", JP(r.pose)}, {"success", r.success}, {"calls", *p.calls}});
}

// the localizer on a series of priors and scans, next to a recorded registration of each
static void RunLocalizer(const json & s)
{
  Localizer<PointXYZToVector, pcl::PointXYZ> localizer(XYZ(s["edge_map"]), XYZ(s["surface_map"]), s["max"].get<int>());
  for (auto & u : s["scans"]) {
    json run = s; run["problem"] = "loam"; run["edge"] = u["edge"]; run["surface"] = u["surface"]; run["pose"] = u["prior"]; run["k"] = 15;
    json log = json::array(); const bool before = localizer.IsInitialized();
    localizer.Init(EP(u["prior"])); const json start = JP(localizer.Get());
    const bool ok = localizer.Update(std::make_tuple(XYZ(u["edge"]), XYZ(u["surface"])));
    g_capture = &log; RunOptimizer(run); g_capture = nullptr;
    json calls = json::array(); for (size_t i = 1; i + 1 < log.size(); i++) calls.push_back(log[i]);
    (*g_emit)({{"ev", "Update"}, {"was", before}, {"is", localizer.IsInitialized()}, {"start", start}, {"got", JP(localizer.Get())}, {"success", ok},
        {"run", {{"edge", u["edge"]}, {"surface", u["surface"]}, {"prior", u["prior"]}, {"begin", log[0]}, {"calls", calls}, {"result", log[log.size() - 1]}}}});
  }
}

// pose updater that notes the map it is given and answers from a list
struct ListUpdater {
  static std::list<Eigen::Isometry3d> next; static bool used;
  explicit ListUpdater(const pcl::PointCloud<pcl::PointXYZ>::Ptr & map) {used = true; g_log["map"] = JC(*map);}
  Eigen::Isometry3d operator()(const pcl::PointCloud<pcl::PointXYZ>::Ptr & scan, const Eigen::Isometry3d & pose) const
  { g_log["scan"] = JC(*scan); g_log["from"] = JP(pose); auto r = next.front(); next.pop_front(); return r; }
};
std::list<Eigen::Isometry3d> ListUpdater::next; bool ListUpdater::used = false;

static void RunOdometry(const json & s)
{
  auto map = std::make_shared<PointCloudMap<pcl::PointXYZ>>(s["window"].get<int>());
  Odometry<ListUpdater, PointCloudMap<pcl::PointXYZ>, pcl::PointCloud<pcl::PointXYZ>::Ptr> odo(map);
  for (auto & u : s["scans"]) {
    g_log = {{"map", json::array()}, {"scan", json::array()}, {"from", json::array()}}; ListUpdater::used = false;
    ListUpdater::next.assign(1, EP(u["answer"]));
    odo.Update(XYZ(u["points"]));
    (*g_emit)({{"ev", "Scan"}, {"points", u["points"]}, {"answer", JP(EP(u["answer"]))}, {"asked", ListUpdater::used}, {"log", g_log}, {"pose", JP(odo.CurrentPose())},
        {"recent", JC(*map->GetRecent())}, {"empty", map->IsEmpty()}});
  }
}
static void RunWindow(const json & s)
{
  RecentScans<pcl::PointXYZ> w;
  for (auto & u : s["scans"]) {
    const bool before = w.IsEmpty(); const auto pose = EP(u["pose"]);
    w.Add(pose, XYZ(u["points"])); json rec = json::array();
    for (auto & n : s["sizes"]) rec.push_back({{"n", n}, {"points", JC(*w.GetRecent(n.get<int>()))}});
    (*g_emit)({{"ev", "Add"}, {"points", u["points"]}, {"pose", JP(pose)}, {"was_empty", before}, {"empty", w.IsEmpty()}, {"recent", rec}, {"all", JC(*w.GetAll())}});
  }
}
static void RunStore(const json & s)
{
  StampSortedObjects<int> store;
  for (auto & o : s["ops"]) {
    const std::string k = o["k"]; json ev = {{"ev", k}, {"t", o["t"]}, {"v", o.value("v", 0)}, {"got", {{"t", "0"}, {"v", 0}}}};
    if (k == "Insert") store.Insert(N(o["t"]), o["v"].get<int>());
    else if (k == "Clean") store.RemoveOlderThan(N(o["t"]));
    else if (store.Size() > 0) {auto [t, v] = store.GetClosest(N(o["t"])); ev["got"] = {{"t", S(t)}, {"v", v}};}
    ev["size"] = store.Size();
    (*g_emit)(ev);
  }
}

static json Run(const json & s)
{
  const std::string op = s.at("op");
  if (op == "errors") {std::vector<Eigen::VectorXd> r; for (auto & v : s["r"]) r.push_back(EV(v)); return JV(ComputeErrors(r));}
  if (op == "normalize") return Try([&] {auto [n, sc] = NormalizeErrorScale(EV(s["e"])); return json{{"n", JV(n)}, {"scale", S(sc)}};});
  if (op == "weights") return JV(ComputeWeights(EV(s["e"])));
  if (op == "step") {
    const Rows r = RowsOf(s); const auto [dq, dt] = CalcUpdate(EQ(s["q"]), EV(s["w"]), std::get<0>(r), std::get<1>(r));
    return {{"dq", JQ(dq)}, {"dt", JV(dt)}};
  }
  if (op == "wupdate") {
    const Rows r = RowsOf(s); const Eigen::Matrix<double, 7, 6> M = EM(s["M"]);
    return JV(WeightedUpdate(M, EV(s["w"]), std::get<0>(r), std::get<1>(r)));
  }
  if (op == "makem") return JM(MakeM(EQ(s["q"])));
  if (op == "converged") return CheckConvergence(EQ(s["q"]), EV(s["t"]));
  if (op == "degenerate") return IsDegenerate(EM(s["m"]));
  if (op == "exp") return JQ(AngleAxisToQuaternion(EV(s["v"])));
  if (op == "pose") return JP(MakePose(EQ(s["q"]), EV(s["t"])));
  if (op == "edge") {const Edge<PointXYZToVector> e(XYZ(s["map"]), s["k"].get<int>()); return JR(e.Make(XYZ(s["scan"]), EP(s["pose"])));}
  if (op == "surface") {const Surface<PointXYZToVector> e(XYZ(s["map"]), s["k"].get<int>()); return JR(e.Make(XYZ(s["scan"]), EP(s["pose"])));}
  if (op == "loam") {
    const LOAMOptimizationProblem<PointXYZToVector> p(XYZ(s["edge_map"]), XYZ(s["surface_map"]), s["k"].get<int>());
    return JR(p.Make(std::make_tuple(XYZ(s["edge"]), XYZ(s["surface"])), EP(s["pose"])));
  }
  if (op == "align") return JR(AlignmentProblem().Make(std::make_tuple(EM(s["x"], 3), EM(s["y"], 3)), EP(s["pose"])));
  if (op == "triplet") return JV(TripletCross(EV(s["a"]), EV(s["b"]), EV(s["c"])));
  if (op == "edge_row") return {{"J", JM(MakeEdgeJacobianRow(Eigen::Quaterniond(EP(s["pose"]).linear()), EV(s["a"]), EV(s["b"]), EV(s["c"])))},
      {"r", JV(MakeEdgeResidual(EP(s["pose"]), EV(s["a"]), EV(s["b"]), EV(s["c"])))}};
  if (op == "surface_row") return {{"J", JM(MakeJacobianRow(EV(s["w"]), Eigen::Quaterniond(EP(s["pose"]).linear()), EV(s["a"])))},
      {"r", S(SignedPointPlaneDistance(EV(s["w"]), EP(s["pose"]) * Eigen::Vector3d(EV(s["a"]))))}, {"d", S(PointPlaneDistance(EV(s["w"]), EV(s["a"])))}};
  if (op == "rows") {
    std::vector<Eigen::Vector3d> p, c; for (auto & v : s["p"]) p.push_back(EV(v)); for (auto & v : s["c"]) c.push_back(EV(v));
    return JM(MakeJacobian(p, c, Eigen::Quaterniond(EP(s["pose"]).linear())));
  }
  if (op == "meancov") {auto [m, c] = CalcMeanAndCovariance(EM(s["x"], 3)); return {{"m", JV(m)}, {"c", JM(c)}};}
  if (op == "principal") {auto [v, m] = PrincipalComponents(EM(s["m"])); return {{"v", JV(v)}, {"m", JM(m)}, {"reliable", PrincipalIsReliable(v)}};}
  if (op == "plane") {const Eigen::VectorXd w = EstimatePlaneCoefficients(EM(s["x"], 3)); return {{"w", JV(w)}, {"along", CheckPointsDistributeAlongPlane(EM(s["x"], 3), w)}};}
  if (op == "solve") return JV(SolveLinear(EM(s["a"]), EV(s["b"])));
  if (op == "knn") {
    const KDTreeEigen t(EM(s["map"], 3), s["leaf"].get<int>()); json r = json::array();
    for (auto & q : s["queries"]) {auto [x, d] = t.NearestKSearch(EV(q["p"]), q["k"].get<int>()); r.push_back({{"x", JM(x)}, {"d", JS(d)}});}
    return r;
  }
  if (op == "knn_cloud") {
    const auto t = MakeKDTree<PointXYZToVector, pcl::PointXYZ>(XYZ(s["map"])); json r = json::array();
    for (auto & q : s["queries"]) {auto [x, d] = t->NearestKSearch(EV(q["p"]), q["k"].get<int>()); r.push_back({{"x", JM(x)}, {"d", JS(d)}});}
    return r;
  }
  if (op == "tomatrix") {
    pcl::PointCloud<PointXYZCR>::Ptr c(new pcl::PointCloud<PointXYZCR>());
    for (auto & p : s["pts"]) c->push_back(PointXYZCR(float(N(p[0])), float(N(p[1])), float(N(p[2])), float(N(p[3])), 7));
    return {{"xyzc", JM(PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(c))}, {"xyz", JM(PointCloudToMatrix<PointXYZCRToXYZVector, PointXYZCR>(c))},
      {"plain", JM(PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(XYZ(s["pts"])))}};
  }
  if (op == "filter") {std::vector<bool> f; for (auto & b : s["flags"]) f.push_back(b.get<bool>()); return Filter(f, s["v"].get<std::vector<int>>());}
  if (op == "median") return Try([&] {return json(S(MedianAbsoluteDeviation(EV(s["v"]))));});
  if (op == "scale") return Try([&] {return json(S(Scale(EV(s["v"]))));});
  if (op == "huber") return {{"c", S(Huber(N(s["e"]), N(s["k"])))}, {"d", S(HuberDerivative(N(s["e"]), N(s["k"])))}};
  if (op == "huber0") return {{"c", S(Huber(N(s["e"])))}, {"d", S(HuberDerivative(N(s["e"])))}};
  throw std::runtime_error("scenario: unknown op " + op);
}

int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  const char * lim = getenv("VF_LIMIT");
  return ForkRun(argv[1], argv[2], argv[3], lim ? atoi(lim) : 20, [&](const json & sc, Emitter & emit) {
      g_emit = &emit;
      const std::string kind = sc.value("kind", "calls");
      if (kind == "optimizer") {RunOptimizer(sc["run"]); return;}
      if (kind == "localizer") {RunLocalizer(sc["run"]); return;}
      if (kind == "odometry") {RunOdometry(sc["run"]); return;}
      if (kind == "window") {RunWindow(sc["run"]); return;}
      if (kind == "store") {RunStore(sc["run"]); return;}
      for (auto & st : sc.at("steps")) emit({{"ev", "Op"}, {"step", st}, {"res", Run(st)}});
      emit({{"ev", "End"}, {"step", json::object()}, {"res", 0}});
    });
}
