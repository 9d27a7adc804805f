#pragma once
#include <atomic>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "sim.hpp"

enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
struct rmw_qos_profile_t { int history = 0; size_t depth = 10; int reliability = 0; int durability = 0; };
inline const rmw_qos_profile_t rmw_qos_profile_default{1, 10, 1, 2};
inline const rmw_qos_profile_t rmw_qos_profile_sensor_data{1, 5, 2, 2};

namespace rclcpp {

class Duration {
public:
  Duration(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  explicit Duration(int64_t ns) : ns_(ns) {}
  template<class R, class P> Duration(std::chrono::duration<R, P> d)
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns_(int64_t(d.sec) * 1000000000LL + d.nanosec) {}
  static Duration from_seconds(double s) {return Duration(static_cast<int64_t>(s * 1e9));}
  static Duration from_nanoseconds(int64_t n) {return Duration(n);}
  int64_t nanoseconds() const {return ns_;}
  double seconds() const {return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count();}
  template<class D> D to_chrono() const {return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));}
  operator builtin_interfaces::msg::Duration() const {
    builtin_interfaces::msg::Duration d; d.sec = ns_ / 1000000000LL; d.nanosec = ns_ % 1000000000LL; return d;}
  bool operator<(const Duration & o) const {return ns_ < o.ns_;}
  bool operator>(const Duration & o) const {return ns_ > o.ns_;}
  bool operator<=(const Duration & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Duration & o) const {return ns_ >= o.ns_;}
  bool operator==(const Duration & o) const {return ns_ == o.ns_;}
  bool operator!=(const Duration & o) const {return ns_ != o.ns_;}
  Duration operator+(const Duration & o) const {return Duration(ns_ + o.ns_);}
  Duration operator-(const Duration & o) const {return Duration(ns_ - o.ns_);}
private:
  int64_t ns_;
};

class Time {
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t c = RCL_SYSTEM_TIME) : ns_(int64_t(s) * 1000000000LL + ns), c_(c)
  { if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  explicit Time(int64_t ns = 0, rcl_clock_type_t c = RCL_SYSTEM_TIME) : ns_(ns), c_(c) {}
  Time(const builtin_interfaces::msg::Time & t, rcl_clock_type_t c = RCL_ROS_TIME)
  : ns_(int64_t(t.sec) * 1000000000LL + t.nanosec), c_(c)
  { if (t.sec < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  Time & operator=(const builtin_interfaces::msg::Time & t) {*this = Time(t); return *this;}
  operator builtin_interfaces::msg::Time() const {
    builtin_interfaces::msg::Time t;
    int64_t s = ns_ / 1000000000LL, r = ns_ % 1000000000LL;
    if (r < 0) {r += 1000000000LL; s -= 1;}
    t.sec = static_cast<int32_t>(s); t.nanosec = static_cast<uint32_t>(r); return t;}
  int64_t nanoseconds() const {return ns_;}
  double seconds() const {return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count();}
  rcl_clock_type_t get_clock_type() const {return c_;}
  static Time max() {return Time(std::numeric_limits<int64_t>::max(), RCL_SYSTEM_TIME);}
  bool operator==(const Time & o) const {chk(o); return ns_ == o.ns_;}
  bool operator!=(const Time & o) const {return !(*this == o);}
  bool operator<(const Time & o) const {chk(o); return ns_ < o.ns_;}
  bool operator<=(const Time & o) const {chk(o); return ns_ <= o.ns_;}
  bool operator>(const Time & o) const {chk(o); return ns_ > o.ns_;}
  bool operator>=(const Time & o) const {chk(o); return ns_ >= o.ns_;}
  Duration operator-(const Time & o) const {
    if (c_ != o.c_) throw std::runtime_error("can't subtract times with different time sources");
    return Duration(ns_ - o.ns_);}
  Time operator+(const Duration & d) const {return Time(ns_ + d.nanoseconds(), c_);}
  Time operator-(const Duration & d) const {return Time(ns_ - d.nanoseconds(), c_);}
  Time & operator+=(const Duration & d) {ns_ += d.nanoseconds(); return *this;}
  Time & operator-=(const Duration & d) {ns_ -= d.nanoseconds(); return *this;}
private:
  void chk(const Time & o) const {if (c_ != o.c_) throw std::runtime_error("can't compare times with different time sources");}
  int64_t ns_; rcl_clock_type_t c_;
};

class Clock {
public:
  using SharedPtr = std::shared_ptr<Clock>; using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t c = RCL_SYSTEM_TIME) : c_(c) {}
  Time now() const {return Time(sim::W().now_ns, c_);}
  rcl_clock_type_t get_clock_type() const {return c_;}
private:
  rcl_clock_type_t c_;
};

class Logger { public: Logger(std::string n = "") : n_(n) {} const char * get_name() const {return n_.c_str();} Logger get_child(const std::string & s) {return Logger(n_ + "." + s);} private: std::string n_; };
inline Logger get_logger(const std::string & n) {return Logger(n);}

struct KeepAll {}; struct KeepLast { explicit KeepLast(size_t d) : depth(d) {} size_t depth; };
enum class ReliabilityPolicy { BestEffort, Reliable, SystemDefault };
enum class DurabilityPolicy { Volatile, TransientLocal, SystemDefault };
enum class HistoryPolicy { KeepLast, KeepAll, SystemDefault };
class QoS {
public:
  QoS(size_t depth) : depth_(depth) {}
  QoS(int depth) : depth_(depth) {}
  QoS(KeepAll) : depth_(0), history_("keep_all") {}
  QoS(KeepLast k) : depth_(k.depth) {}
  QoS & reliable() {reliability_ = "reliable"; return *this;}
  QoS & best_effort() {reliability_ = "best_effort"; return *this;}
  QoS & durability_volatile() {durability_ = "volatile"; return *this;}
  QoS & transient_local() {durability_ = "transient_local"; return *this;}
  QoS & keep_all() {history_ = "keep_all"; depth_ = 0; return *this;}
  QoS & keep_last(size_t d) {history_ = "keep_last"; depth_ = d; return *this;}
  QoS & reliability(ReliabilityPolicy p) {return p == ReliabilityPolicy::Reliable ? reliable() : best_effort();}
  QoS & durability(DurabilityPolicy p) {return p == DurabilityPolicy::TransientLocal ? transient_local() : durability_volatile();}
  rmw_qos_profile_t get_rmw_qos_profile() const {
    rmw_qos_profile_t p; p.history = history_ == "keep_all" ? 2 : 1; p.depth = depth_;
    p.reliability = reliability_ == "reliable" ? 1 : 2; p.durability = durability_ == "transient_local" ? 1 : 2; return p;}
  size_t depth() const {return depth_;}
  size_t depth_ = 10; std::string history_ = "keep_last", reliability_ = "reliable", durability_ = "volatile";
};
class SensorDataQoS : public QoS { public: SensorDataQoS() : QoS(size_t(5)) {best_effort();} };
class SystemDefaultsQoS : public QoS { public: SystemDefaultsQoS() : QoS(size_t(10)) {} };

enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup { public: using SharedPtr = std::shared_ptr<CallbackGroup>; CallbackGroupType type = CallbackGroupType::MutuallyExclusive; };
struct SubscriptionOptions { CallbackGroup::SharedPtr callback_group; };
struct PublisherOptions { CallbackGroup::SharedPtr callback_group; };

class SubscriptionBase { public: using SharedPtr = std::shared_ptr<SubscriptionBase>; virtual ~SubscriptionBase() = default; };
template<typename M> class Subscription : public SubscriptionBase { public: using SharedPtr = std::shared_ptr<Subscription<M>>; using ConstSharedPtr = std::shared_ptr<const Subscription<M>>; };

template<typename M> class Publisher {
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>; using ConstSharedPtr = std::shared_ptr<const Publisher<M>>;
  explicit Publisher(std::string t) : topic_(std::move(t)) {}
  void publish(const M & m) {sim::Publish<M>(topic_, typeid(M).name(), m);}
  void publish(std::unique_ptr<M> m) {publish(*m);}
  size_t get_subscription_count() const {return 1;}
  const char * get_topic_name() const {return topic_.c_str();}
private:
  std::string topic_;
};

class TimerBase { public: using SharedPtr = std::shared_ptr<TimerBase>;
  explicit TimerBase(std::shared_ptr<sim::Timer> t) : t_(t) {}
  void cancel() {t_->cancelled = true;} void reset() {t_->cancelled = false;} bool is_canceled() {return t_->cancelled;}
private: std::shared_ptr<sim::Timer> t_; };
template<typename T = void> class WallTimerT : public TimerBase { public: using TimerBase::TimerBase; };

class ParameterValue { public: std::string v; bool set = false;
  template<typename T> T get() const; };
namespace detail {
template<typename T> T Parse(const std::string & s) {
  if constexpr (std::is_same_v<T, std::string>) {return s;}
  else if constexpr (std::is_same_v<T, bool>) {return s == "true" || s == "1" || s == "True" || s == "TRUE";}
  else if constexpr (std::is_floating_point_v<T>) {return static_cast<T>(std::strtod(s.c_str(), nullptr));}
  else {return static_cast<T>(std::strtoll(s.c_str(), nullptr, 10));}
}
template<typename T> std::string Show(const T & t) {
  if constexpr (std::is_same_v<T, bool>) {return t ? "true" : "false";}
  else if constexpr (std::is_floating_point_v<T>) {char b[64]; snprintf(b, sizeof b, "%.17g", double(t)); return b;}
  else {std::ostringstream o; o << t; return o.str();}
}
}
template<typename T> T ParameterValue::get() const {return detail::Parse<T>(v);}
class Parameter { public:
  Parameter() {}
  template<typename T> Parameter(std::string n, const T & t) : name_(n), v_(detail::Show(t)) {}
  static Parameter Raw(std::string n, std::string v) {Parameter p; p.name_ = n; p.v_ = v; return p;}
  double as_double() const {return detail::Parse<double>(v_);} int64_t as_int() const {return detail::Parse<int64_t>(v_);}
  bool as_bool() const {return detail::Parse<bool>(v_);} std::string as_string() const {return v_;}
  template<typename T> T get_value() const {return detail::Parse<T>(v_);}
  const std::string & get_name() const {return name_;} std::string raw() const {return v_;}
private: std::string name_, v_; };

class NodeOptions { public:
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) {p_ = p; return *this;}
  NodeOptions & append_parameter_override(const Parameter & p) {p_.push_back(p); return *this;}
  template<typename T> NodeOptions & append_parameter_override(const std::string & n, const T & v) {p_.emplace_back(n, v); return *this;}
  NodeOptions & use_intra_process_comms(bool) {return *this;}
  NodeOptions & automatically_declare_parameters_from_overrides(bool) {return *this;}
  std::vector<Parameter> p_; };

namespace node_interfaces { class NodeBaseInterface { public: using SharedPtr = std::shared_ptr<NodeBaseInterface>; }; }

class Node : public std::enable_shared_from_this<Node> {
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions()) : name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME))
  { for (auto & p : o.p_) params_[p.get_name()] = p.raw(); }
  Node(const std::string & name, const std::string &, const NodeOptions & o = NodeOptions()) : Node(name, o) {}
  virtual ~Node() = default;
  const char * get_name() const {return name_.c_str();}
  Logger get_logger() const {return Logger(name_);}
  Clock::SharedPtr get_clock() {return clock_;}
  Clock::ConstSharedPtr get_clock() const {return clock_;}
  Time now() const {return clock_->now();}
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true) {auto g = std::make_shared<CallbackGroup>(); g->type = t; return g;}
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() {return std::make_shared<node_interfaces::NodeBaseInterface>();}

  template<typename T> auto declare_parameter(const std::string & n, const T & d)
  {
    if constexpr (std::is_convertible_v<T, const char *>) {return Declare<std::string>(n, std::string(d));}
    else {return Declare<T>(n, d);}
  }
  template<typename T> T declare_parameter(const std::string & n) {return Declare<T>(n, T{});}
  bool has_parameter(const std::string & n) const {return declared_.count(n) > 0;}
  Parameter get_parameter(const std::string & n) const {
    auto i = declared_.find(n); if (i == declared_.end()) throw std::runtime_error("parameter not declared: " + n);
    return Parameter::Raw(n, i->second);}
  template<typename T> bool get_parameter(const std::string & n, T & v) const {
    auto i = declared_.find(n); if (i == declared_.end()) return false; v = detail::Parse<T>(i->second); return true;}

  template<typename M, typename F> std::shared_ptr<Subscription<M>> create_subscription(
    const std::string & topic, const QoS & qos, F f, const SubscriptionOptions & = SubscriptionOptions())
  {
    sim::W().subs.push_back(sim::Sub{sim::Norm(topic), std::type_index(typeid(M)),
        [f](std::any a) mutable {
          auto m = std::any_cast<std::shared_ptr<M>>(a);
          if constexpr (std::is_invocable_v<F &, std::shared_ptr<const M>>) {f(std::shared_ptr<const M>(m));}
          else if constexpr (std::is_invocable_v<F &, std::shared_ptr<M>>) {f(m);}
          else if constexpr (std::is_invocable_v<F &, const M &>) {f(*m);}
          else {f(std::make_unique<M>(*m));}
        }, qos.reliability_, qos.durability_, qos.history_, int(qos.depth_), topic});
    return std::make_shared<Subscription<M>>();
  }
  template<typename M> std::shared_ptr<Publisher<M>> create_publisher(const std::string & topic, const QoS & qos, const PublisherOptions & = PublisherOptions())
  {
    sim::W().pubs.push_back(sim::Pub{sim::Norm(topic), std::type_index(typeid(M)), qos.reliability_, qos.durability_, qos.history_, int(qos.depth_), topic});
    return std::make_shared<Publisher<M>>(topic);
  }
  template<typename R, typename P, typename F> TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> d, F f, CallbackGroup::SharedPtr = nullptr)
  {
    auto t = std::make_shared<sim::Timer>(); t->period_ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); t->call = f;
    sim::W().timers.push_back(t); return std::make_shared<TimerBase>(t);
  }
private:
  template<typename T> T Declare(const std::string & n, const T & d)
  {
    if (declared_.count(n)) throw std::runtime_error("parameter already declared: " + n);
    std::string v = detail::Show(d);
    if (params_.count(n)) v = params_[n];
    if (sim::W().params.count(n)) v = sim::W().params[n];
    declared_[n] = v;
    sim::W().declared[n] = std::is_same_v<T, bool> ? "bool" : std::is_integral_v<T> ? "int" : std::is_floating_point_v<T> ? "double" : "string";
    return detail::Parse<T>(v);
  }
  std::string name_; Clock::SharedPtr clock_;
  std::map<std::string, std::string> params_, declared_;
};

template<typename NodeT, typename F> TimerBase::SharedPtr create_timer(NodeT, Clock::SharedPtr, Duration d, F f, CallbackGroup::SharedPtr = nullptr)
{
  auto t = std::make_shared<sim::Timer>(); t->period_ns = d.nanoseconds(); t->call = f;
  sim::W().timers.push_back(t); return std::make_shared<TimerBase>(t);
}

inline void init(int, char const * const *) {sim::W().init = true;}
inline bool ok() {return sim::W().ok;}
inline bool shutdown() {sim::W().shutdowns++; sim::W().ok = false; return true;}
template<typename T> void spin(const T &) {if (sim::W().on_spin) sim::W().on_spin();}
template<typename T> void spin_some(const T &) {}
template<class R, class P> bool sleep_for(std::chrono::duration<R, P> d)
{
  int64_t n = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
  sim::W().now_ns += n; sim::W().slept_ns += n; return true;
}
class Rate { public: explicit Rate(double hz) : p_(1e9 / hz) {} bool sleep() {return sleep_for(std::chrono::nanoseconds(int64_t(p_)));} private: double p_; };

class Executor { public: virtual ~Executor() = default;
  template<typename T> void add_node(const T & n) {keep_.push_back(std::make_shared<T>(n));}
  template<typename T> void remove_node(const T &) {}
  virtual void spin() {if (sim::W().on_spin) sim::W().on_spin();}
  void spin_some() {} void cancel() {}
private: std::vector<std::shared_ptr<void>> keep_; };
struct ExecutorOptions {};
namespace executors {
class SingleThreadedExecutor : public Executor {};
class MultiThreadedExecutor : public Executor { public: MultiThreadedExecutor() {} template<typename ... A> explicit MultiThreadedExecutor(A ...) {} };
}
namespace exceptions { class InvalidParametersException : public std::runtime_error { using std::runtime_error::runtime_error; }; }
}  // namespace rclcpp

#define VF_LOG(level, logger, ...) do { (void)sizeof(logger); ::sim::Log(level, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG(logger, ...) VF_LOG("debug", logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) VF_LOG("info", logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) VF_LOG("warn", logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) VF_LOG("error", logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) VF_LOG("fatal", logger, __VA_ARGS__)
#define VF_THR(level, logger, clock, ms, ...) do { (void)(clock).now(); (void)(ms); ::sim::Log(level, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) VF_THR("info", logger, clock, ms, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) VF_THR("warn", logger, clock, ms, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) VF_THR("error", logger, clock, ms, __VA_ARGS__)
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR
#define VF_STREAM(level, logger, s) do { std::ostringstream vf_os; vf_os << s; ::sim::Log(level, "%s", vf_os.str().c_str()); } while (0)
#define RCLCPP_DEBUG_STREAM(logger, s) VF_STREAM("debug", logger, s)
#define RCLCPP_INFO_STREAM(logger, s) VF_STREAM("info", logger, s)
#define RCLCPP_WARN_STREAM(logger, s) VF_STREAM("warn", logger, s)
#define RCLCPP_ERROR_STREAM(logger, s) VF_STREAM("error", logger, s)
