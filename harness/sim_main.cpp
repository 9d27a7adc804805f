// Drives one ROS node of the repository, compiled against the stand-ins, through scenarios.
//   usage: node_bin scenarios.ndjson out.ndjson scratch_dir
#include <cxxabi.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include "forkrun.hpp"
#include "rclcpp_stub.hpp"
#include "tf2_stub.hpp"
#include "sim.hpp"

namespace sim {
World & W() {static World w; return w;}
void Log(const char * level, const char * fmt, ...)
{
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  W().logs.emplace_back(level, b);
}
}

#ifdef VF_COMPONENT
static int RunApp()
{
  rclcpp::init(0, nullptr);
  auto it = sim::W().components.begin();
  if (it == sim::W().components.end()) throw std::runtime_error("no component registered");
  auto node = it->second();
  sim::W().on_spin();
  return 0;
}
#else
int app_main(int argc, char ** argv);
static int RunApp() {static char n[] = "app"; char * a[] = {n, nullptr}; return app_main(1, a);}
#endif

// every endpoint: name as written, message type, quality of service
template<typename E> static json Wires(const std::vector<E> & v)
{
  json r = json::array();
  for (auto & e : v) {
    char * d = abi::__cxa_demangle(e.type.name(), nullptr, nullptr, nullptr); std::string t = d ? d : e.type.name(); free(d);
    if (t.rfind("::") != std::string::npos) t = t.substr(t.rfind("::") + 2);
    r.push_back({{"topic", e.topic}, {"absolute", !e.name.empty() && e.name[0] == '/'}, {"type", t}, {"rel", e.reliability}, {"dur", e.durability}, {"hist", e.history}, {"depth", e.depth}});
  }
  return r;
}
static json Declared(const std::map<std::string, std::string> & m)
{json r = json::array(); for (auto & [k, v] : m) r.push_back({{"name", k}, {"type", v}}); return r;}

template<typename M> static json Any(const std::any & a) {return TJ(std::any_cast<const M &>(a));}
static json OutJson(const sim::Out & o)
{
  using namespace geometry_msgs::msg; json m; std::string t;
  auto & a = o.msg;
  if (a.type() == typeid(nav_msgs::msg::Odometry)) {t = "Odometry"; m = Any<nav_msgs::msg::Odometry>(a);}
  else if (a.type() == typeid(nav_msgs::msg::Path)) {t = "Path"; m = Any<nav_msgs::msg::Path>(a);}
  else if (a.type() == typeid(PoseStamped)) {t = "PoseStamped"; m = Any<PoseStamped>(a);}
  else if (a.type() == typeid(PoseWithCovarianceStamped)) {t = "PoseWithCovarianceStamped"; m = Any<PoseWithCovarianceStamped>(a);}
  else if (a.type() == typeid(TwistStamped)) {t = "TwistStamped"; m = Any<TwistStamped>(a);}
  else if (a.type() == typeid(TransformStamped)) {t = "Transform"; m = Any<TransformStamped>(a);}
  else if (a.type() == typeid(sensor_msgs::msg::PointCloud2)) {t = "PointCloud2"; m = Any<sensor_msgs::msg::PointCloud2>(a);}
  else {t = "other"; m = json::object();}
  return {{"topic", o.topic}, {"type", t}, {"msg", m}};
}
static json TakeOut()
{
  json a = json::array(); for (auto & o : sim::W().out) a.push_back(OutJson(o)); sim::W().out.clear(); return a;
}
static int Send(const std::string & topic, const std::string & type, const json & m)
{
  using namespace geometry_msgs::msg;
  if (type == "PointCloud2") return sim::Deliver(topic, JCloud(m));
  if (type == "PoseStamped") {PoseStamped p; p.header = JHeader(m.at("header")); p.pose = JPose(m.at("pose")); return sim::Deliver(topic, p);}
  if (type == "PoseWithCovarianceStamped") {
    PoseWithCovarianceStamped p; p.header = JHeader(m.at("header")); p.pose.pose = JPose(m.at("pose")); p.pose.covariance = JCov(m.value("cov", json::array()));
    return sim::Deliver(topic, p);}
  if (type == "TwistWithCovarianceStamped") {
    TwistWithCovarianceStamped p; p.header = JHeader(m.at("header")); p.twist.twist = JTwist(m.at("twist")); p.twist.covariance = JCov(m.value("cov", json::array()));
    return sim::Deliver(topic, p);}
  if (type == "Odometry") {
    nav_msgs::msg::Odometry o; o.header = JHeader(m.at("header")); o.child_frame_id = m.value("child", std::string("base_link"));
    o.pose.pose = JPose(m.at("pose")); o.pose.covariance = JCov(m.value("cov", json::array())); return sim::Deliver(topic, o);}
  throw std::runtime_error("scenario: unknown message type " + type);
}

#ifdef VF_EXTRA
json VfExtra(const json & step);   // node specific step (files in the working directory, ...)
#endif

int main(int argc, char ** argv)
{
  if (argc < 4) return 2;
  std::filesystem::create_directories(argv[3]);
  const char * lim = getenv("VF_LIMIT");
  return ForkRun(argv[1], argv[2], argv[3], lim ? atoi(lim) : 20, [&](const json & sc, Emitter & emit) {
      auto & w = sim::W();
      const json params = sc.value("params", json::object());
      for (auto & [k, v] : params.items()) w.params[k] = v.is_string() ? v.get<std::string>() : v.dump();
      if (sc.contains("files")) for (auto & [k, v] : sc["files"].items()) {
          std::filesystem::create_directories(std::filesystem::path(k).parent_path().empty() ? "." : std::filesystem::path(k).parent_path());
          std::ofstream f(k, std::ios::binary); f << v.get<std::string>();}
      if (sc.contains("files_hex")) for (auto & [k, v] : sc["files_hex"].items()) {
          const std::string h = v; std::string b; for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(char(std::stoi(h.substr(i, 2), nullptr, 16)));
          std::ofstream f(k, std::ios::binary); f << b;}
      auto tail = [&](json ev) {
          int warn = 0, err = 0; for (auto & l : w.logs) {if (l.first == "warn") warn++; if (l.first == "error" || l.first == "fatal") err++;}
          w.logs.clear();
          ev["out"] = TakeOut(); ev["warn"] = warn; ev["err"] = err; ev["ok"] = w.ok; ev["slept_ms"] = int(w.slept_ns / 1000000); w.slept_ns = 0;
          builtin_interfaces::msg::Time t = rclcpp::Time(w.now_ns); ev["now"] = TJ(t);
          emit(ev);
        };
      w.now_ns = sc.contains("start") ? int64_t(sc["start"]["sec"].get<int>()) * 1000000000LL + sc["start"]["nsec"].get<int>() : 0;
      w.on_spin = [&] {
          json subs = json::array(), pubs = json::array(), tm = json::array();
          for (auto & s : w.subs) subs.push_back(s.topic);
          for (auto & p : w.pubs) pubs.push_back({{"topic", p.topic}, {"rel", p.reliability}, {"dur", p.durability}, {"hist", p.history}, {"depth", p.depth}});
          for (auto & t : w.timers) tm.push_back(S(t->period_ns * 1e-9));
          tail({{"ev", "Start"}, {"subs", subs}, {"pubs", pubs}, {"timers", tm}, {"inputs", Wires(w.subs)}, {"outputs", Wires(w.pubs)}, {"declared", Declared(w.declared)}});
          for (auto & st : sc.at("steps")) {
            const std::string op = st.at("op");
            if (op == "msg") {
              int n = Send(st.at("topic"), st.at("type"), st.at("msg"));
              tail({{"ev", "Msg"}, {"step", st}, {"delivered", n}});
            } else if (op == "timer") {
              if (st.contains("t")) w.now_ns = int64_t(st["t"]["sec"].get<int>()) * 1000000000LL + st["t"]["nsec"].get<int>();
              for (auto & t : w.timers) if (!t->cancelled) t->call();
              tail({{"ev", "Timer"}});
            } else if (op == "clock") {
              w.now_ns = int64_t(st["t"]["sec"].get<int>()) * 1000000000LL + st["t"]["nsec"].get<int>();
            } else if (op == "tf") {
              sim::TfEntry e; e.tf.transform = JTransform(st.at("pose")); e.tf.header.frame_id = st["target"]; e.tf.child_frame_id = st["source"];
              e.after_attempts = st.value("after", 0); w.tf_attempts = 0; w.tf[{st["target"], st["source"]}] = e;
            } else if (op == "tf_reset") {w.tf_attempts = 0; w.tf.clear();
#ifdef VF_EXTRA
            } else if (op == "extra") {
              json r = VfExtra(st); r["ev"] = "Extra"; tail(r);
#endif
            } else throw std::runtime_error("scenario: unknown op " + op);
          }
        };
      int rc = 0; bool threw = false; std::string why;
      bool spun = false; auto sp = w.on_spin; w.on_spin = [&] {spun = true; sp();};
      try {rc = RunApp();} catch (const std::exception & x) {threw = true; why = x.what();}
      if (threw && spun) {tail({{"ev", "Crash"}, {"why", "exception: " + why}}); return;}
      json ev = {{"ev", "Exit"}, {"rc", rc}, {"threw", threw}, {"spun", spun}};
#ifdef VF_EXTRA
      ev["extra"] = VfExtra(json{{"what", "exit"}});
#endif
      tail(ev);
    });
}
