// Runs kalman_filter::KalmanFilter through scenarios; only its public observations are recorded.
#include <filesystem>
#include <memory>
#include <stdexcept>
#include "forkrun.hpp"
#include "kalman_filter/kalman_filter.hpp"

static Eigen::MatrixXd M(const json & j)
{
  Eigen::MatrixXd m(j.size(), j[0].size());
  for (size_t i = 0; i < j.size(); i++) for (size_t k = 0; k < j[i].size(); k++) m(i, k) = N(j[i][k]);
  return m;
}
static Eigen::VectorXd V(const json & j) {Eigen::VectorXd v(j.size()); for (size_t i = 0; i < j.size(); i++) v(i) = N(j[i]); return v;}

int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  return ForkRun(argv[1], argv[2], argv[3], 20, [&](const json & sc, Emitter & emit) {
      std::unique_ptr<KalmanFilter> f; int n = 0;
      for (auto & st : sc.at("steps")) {
        const std::string op = st.at("op"); bool threw = false;
        try {
          if (op == "new") {n = st["x"].size(); f = std::make_unique<KalmanFilter>(V(st["x"]), M(st["A"]), M(st["B"]), M(st["C"]), M(st["Q"]), M(st["R"]), M(st["P"]));}
          else if (op == "init") f->init(V(st["x"]), M(st["P"]));
          else if (op == "own") f->predict(V(st["u"]));
          else if (op == "given") f->predict(V(st["u"]), M(st["A"]), M(st["B"]), M(st["Q"]));
          else if (op == "update") f->update(V(st["y"]));
          else if (op == "copy") f = std::make_unique<KalmanFilter>(*f);
          else throw std::runtime_error("op");
        } catch (const std::invalid_argument &) {threw = true;}
        json x = json::array(); for (int i = 0; i < n; i++) x.push_back(S(f->getXelement(i)));
        emit({{"ev", "Did"}, {"step", st}, {"threw", threw}, {"x", x}});
      }
    });
}
