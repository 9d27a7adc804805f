// Runs kalman_filter::TimeDelayKalmanFilter (and the ordinary KalmanFilter next to it) through scenarios.
#include <filesystem>
#include <memory>
#include <optional>
#include "forkrun.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"

static Eigen::MatrixXd M(const json & j)
{
  if (j.empty()) return Eigen::MatrixXd(0, 0);
  Eigen::MatrixXd m(j.size(), j[0].size());
  for (size_t i = 0; i < j.size(); i++) for (size_t k = 0; k < j[i].size(); k++) m(i, k) = N(j[i][k]);
  return m;
}
static Eigen::VectorXd V(const json & j) {Eigen::VectorXd v(j.size()); for (size_t i = 0; i < j.size(); i++) v(i) = N(j[i]); return v;}
static json J(const Eigen::VectorXd & v) {json r = json::array(); for (int i = 0; i < v.size(); i++) r.push_back(S(v(i))); return r;}
static json JM(const Eigen::MatrixXd & m) {json r = json::array(); for (int i = 0; i < m.rows(); i++) for (int k = 0; k < m.cols(); k++) r.push_back(S(m(i, k))); return r;}

int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  return ForkRun(argv[1], argv[2], argv[3], 20, [&](const json & sc, Emitter & emit) {
      std::unique_ptr<TimeDelayKalmanFilter> f; int n = 0;
      for (auto & st : sc.at("steps")) {
        const std::string op = st.at("op"); json ev; bool threw = false;
        if (op == "init") {n = st["N"]; f = std::make_unique<TimeDelayKalmanFilter>(V(st["x"]), M(st["P"]), n); ev["ev"] = "Init";}
        else if (op == "predict") {ev["ev"] = "Predict"; try {f->predict(V(st["xnext"]), M(st["A"]), M(st["Q"]));} catch (const std::invalid_argument &) {threw = true;}}
        else if (op == "update") {ev["ev"] = "Update"; try {f->update(V(st["y"]), M(st["C"]), M(st["R"]), st["d"].get<int>());} catch (const std::invalid_argument &) {threw = true;}}
        else throw std::runtime_error("op");
        json xs = json::array(); for (int d = 0; d < n; d++) xs.push_back(J(f->getX(d)));
        if ((f->getLatestX() - f->getX(0)).norm() != 0) xs[0] = "latest differs from delay 0";
        ev["step"] = st; ev["threw"] = threw; ev["xs"] = xs; ev["P"] = JM(f->getLatestP());
        emit(ev);
      }
    });
}
