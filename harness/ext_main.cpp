// Runs building blocks of the extraction package on given inputs.
#include <filesystem>
#include <range/v3/all.hpp>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include "forkrun.hpp"
#include "lidar_feature_extraction/algorithm.hpp"
#include "lidar_feature_extraction/color_points.hpp"
#include "lidar_feature_extraction/convolution.hpp"
#include "lidar_feature_extraction/curvature.hpp"
#include "lidar_feature_extraction/fill.hpp"
#include "lidar_feature_extraction/index_range.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "lidar_feature_extraction/ring.hpp"

struct FP {int ring; float x; float y;};
using P = pcl::PointXYZ;
static std::vector<double> Vec(const json & j) {std::vector<double> v; for (auto & x : j) v.push_back(N(x)); return v;}
static std::vector<FP> Pts(const json & j)
{ std::vector<FP> v; for (auto & p : j) v.push_back(FP{p.size() > 2 ? p[2].get<int>() : 0, float(N(p[0])), float(N(p[1]))}); return v; }
static pcl::PointCloud<P>::Ptr Cloud(const json & j)
{ pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>()); for (auto & p : j) c->push_back(P(float(N(p[0])), float(N(p[1])), p.size() > 2 ? float(N(p[2])) : 0.f)); return c; }
static json JV(const std::vector<double> & v) {json r = json::array(); for (double x : v) r.push_back(S(x)); return r;}
static const char * L(const PointLabel & l)
{
  switch (l) {
    case PointLabel::Default: return "D"; case PointLabel::Edge: return "E"; case PointLabel::EdgeNeighbor: return "e";
    case PointLabel::Surface: return "S"; case PointLabel::SurfaceNeighbor: return "s"; case PointLabel::OutOfRange: return "O";
    case PointLabel::Occluded: return "X"; case PointLabel::ParallelBeam: return "P"; default: return "?";
  }
}
static PointLabel LL(const std::string & s)
{
  for (auto l : {PointLabel::Default, PointLabel::Edge, PointLabel::EdgeNeighbor, PointLabel::Surface, PointLabel::SurfaceNeighbor,
      PointLabel::OutOfRange, PointLabel::Occluded, PointLabel::ParallelBeam}) if (s == L(l)) return l;
  throw std::runtime_error("label");
}
static std::vector<PointLabel> Labels(const json & j) {std::vector<PointLabel> v; for (auto & x : j) v.push_back(LL(x)); return v;}
static json JL(const std::vector<PointLabel> & v) {json r = json::array(); for (auto & l : v) r.push_back(L(l)); return r;}
// a value or a refusal
template<typename F> static json Try(F f) {try {return {{"ok", true}, {"v", f()}};} catch (const std::logic_error &) {return {{"ok", false}};}}
template<typename F> static std::string Try1(F f) {try {return std::to_string(int(f()));} catch (const std::logic_error &) {return "refused";}}
template<typename R> static json Blocks(const R & r, const json & extra)
{
  json b = json::array();
  for (int j = 0; j < r.NBlocks(); j++) b.push_back({r.Begin(j), r.End(j)});
  json bad = json::array();
  for (auto & e : extra) {const int j = e; bad.push_back(Try1([&] {return r.Begin(j);})); bad.push_back(Try1([&] {return r.End(j);}));}
  return {{"n", r.NBlocks()}, {"b", b}, {"outside", bad}};
}

static json Run(const json & s)
{
  const std::string op = s.at("op");
  if (op == "less") {
    auto p = Pts(s["pts"]); AHasSmallerPolarAngleThanB<FP> less; json m = json::array();
    for (auto & a : p) {json r = json::array(); for (auto & b : p) r.push_back(less(a, b)); m.push_back(r);}
    return m;
  }
  if (op == "sort") {
    auto p = Pts(s["pts"]); std::vector<int> idx = s["idx"].get<std::vector<int>>(); SortByAtan2(idx, p); return idx;
  }
  if (op == "rings") {
    auto p = Pts(s["pts"]); auto rings = ExtractAngleSortedRings(p); json before = json::array(), after = json::array();
    for (auto & [r, v] : rings) before.push_back({r, v});
    RemoveSparseRings(rings, s["min"].get<int>());
    for (auto & [r, v] : rings) after.push_back({r, v});
    return {{"all", before}, {"kept", after}};
  }
  if (op == "ring_field") {
    std::vector<sensor_msgs::msg::PointField> f; for (auto & n : s["names"]) {sensor_msgs::msg::PointField g; g.name = n; f.push_back(g);}
    return RingIsAvailable(f);
  }
  if (op == "blocks") return Try([&] {return Blocks(IndexRange(s["start"], s["end"], s["n"]), s["outside"]);});
  if (op == "padded") return Try([&] {return Blocks(PaddedIndexRange(s["size"], s["n"], s["padding"]), s["outside"]);});
  if (op == "ranges") {
    auto c = Cloud(s["pts"]); MappedPoints<P> m(c, s["idx"].get<std::vector<int>>()); Range<P> range(m); json r = json::array();
    for (auto & iv : s["intervals"]) r.push_back(JV(range(iv[0].get<int>(), iv[1].get<int>())));
    json one = json::array(); for (int i = 0; i < m.size(); i++) one.push_back(S(range(i)));
    return {{"intervals", r}, {"each", one}};
  }
  if (op == "adjacent") {
    auto c = Cloud(s["pts"]); MappedPoints<P> m(c, s["idx"].get<std::vector<int>>()); json r = json::array();
    const double thr = N(s["thr"]);
    return Try([&] {
        NeighborCheckXY<P> nb(m, thr);
        for (int i = 0; i < m.size(); i++) {
          json row = json::array(); for (int j = 0; j < m.size(); j++) row.push_back(Try1([&] {return nb(i, j);})); r.push_back(row);}
        json sl = json::array();
        for (auto & iv : s["slices"]) {
          const int b = iv[0], e = iv[1]; auto n2 = nb.Slice(b, e); json row = json::array();
          for (int i = 0; i + 1 < n2.size(); i++) row.push_back(Try1([&] {return n2(i, i + 1);}));
          sl.push_back({{"n", n2.size()}, {"adj", row}});
        }
        const int k = m.size(); json out = json::array();
        for (auto & o : std::vector<std::pair<int, int>>{{-1, 0}, {0, -1}, {k, 0}, {0, k}, {k - 1, k}}) out.push_back(Try1([&] {return nb(o.first, o.second);}));
        return json{{"m", r}, {"slices", sl}, {"outside", out}, {"n", nb.size()}};
      });
  }
  if (op == "angle") return Try([&] {return json(S(CalcRadian(N(s["a"][0]), N(s["a"][1]), N(s["b"][0]), N(s["b"][1]))));});
  if (op == "conv") return Try([&] {return JV(Convolution1D(Vec(s["v"]), Vec(s["w"])));});
  if (op == "curv") return Try([&] {return JV(CalcCurvature(Vec(s["v"]), s["padding"].get<int>()));});
  if (op == "weight") return JV(MakeWeight(s["padding"].get<int>()));
  if (op == "argsort") {const auto v = Vec(s["v"]); return Argsort(v.begin(), v.end());}
  if (op == "fill") {
    auto l = Labels(s["labels"]); NeighborCheckDebug nb(s["groups"].get<std::vector<int>>()); const std::string k = s["kind"]; const auto mark = LL(s["mark"]);
    json r = Try([&] {
          if (k == "left") FillFromLeft(l, nb, s["a"].get<int>(), s["b"].get<int>(), mark);
          else if (k == "right") FillFromRight(l, nb, s["a"].get<int>(), s["b"].get<int>(), mark);
          else FillNeighbors(l, nb, s["a"].get<int>(), s["b"].get<int>(), mark);
          return JL(l);});
    return r;
  }
  if (op == "select") {
    auto c = Vec(s["curv"]); auto l = InitLabels(c.size()); NeighborCheckDebug nb(s["groups"].get<std::vector<int>>());
    EdgeLabel(s["padding"].get<int>(), N(s["edge"])).Assign(l, c, nb); json e = JL(l);
    SurfaceLabel(s["padding"].get<int>(), N(s["surface"])).Assign(l, c, nb);
    return {{"edges", e}, {"all", JL(l)}};
  }
  if (op == "unreliable") {
    auto c = Cloud(s["pts"]); MappedPoints<P> m(c, irange(c->size())); Range<P> range(m);
    auto l1 = Labels(s["labels"]), l2 = l1, l3 = l1;
    NeighborCheckXY<P> nb(m, N(s["thr"]));
    LabelOccludedPoints(l1, nb, range, s["padding"].get<unsigned>(), N(s["dist"]));
    LabelOutOfRange(l2, range, N(s["min"]), N(s["max"]));
    LabelParallelBeamPoints(l3, range, N(s["ratio"]));
    return {{"X", JL(l1)}, {"O", JL(l2)}, {"P", JL(l3)}};
  }
  if (op == "colour") {
    auto l = Labels(s["labels"]); auto c = Cloud(s["pts"]); MappedPoints<P> m(c, irange(c->size())); auto out = ColorPointsByLabel<P>(m, l);
    json r = json::array(); for (auto & p : *out) r.push_back({S(p.x), S(p.y), S(p.z), int(p.r), int(p.g), int(p.b)}); return r;
  }
  throw std::runtime_error("scenario: unknown op " + op);
}

int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  const char * lim = getenv("VF_LIMIT");
  return ForkRun(argv[1], argv[2], argv[3], lim ? atoi(lim) : 20, [&](const json & sc, Emitter & emit) {
      for (auto & st : sc.at("steps")) emit({{"ev", "Op"}, {"step", st}, {"res", Run(st)}});
      emit({{"ev", "End"}, {"step", json::object()}, {"res", 0}});
    });
}
