// The simulated ROS world: topics, clock, timers, transforms, parameters.
// Everything the code under test does to the outside ends up in sim::World::out.
#pragma once
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <vector>

#include "ros_msgs.hpp"

namespace sim {
inline std::string Norm(const std::string & t) {return (!t.empty() && t[0] == '/') ? t.substr(1) : t;}

struct Out { std::string topic; std::string type; std::any msg; };
struct Sub { std::string topic; std::type_index type; std::function<void(std::any)> call; std::string reliability, durability, history; int depth; std::string name; };
struct Pub { std::string topic; std::type_index type; std::string reliability, durability, history; int depth; std::string name; };
struct Timer { int64_t period_ns; std::function<void()> call; bool cancelled = false; };
struct TfEntry { geometry_msgs::msg::TransformStamped tf; int after_attempts = 0; };

struct World {
  int64_t now_ns = 0;
  bool ok = true;
  bool init = false;
  int shutdowns = 0;
  int64_t slept_ns = 0;
  std::vector<Sub> subs;
  std::vector<Pub> pubs;
  std::vector<std::shared_ptr<Timer>> timers;
  std::vector<Out> out;
  std::vector<std::pair<std::string, std::string>> logs;
  std::map<std::string, std::string> params;           // overrides
  std::map<std::string, std::string> declared;         // parameter -> type
  std::map<std::pair<std::string, std::string>, TfEntry> tf;
  int tf_attempts = 0;
  std::function<void()> on_spin;
  std::map<std::string, std::function<std::shared_ptr<void>()>> components;
};
World & W();   // defined in sim_main.cpp (or in the direct harness)

template<typename M> void Publish(const std::string & topic, const char * type, const M & m)
{ W().out.push_back(Out{Norm(topic), type, std::any(m)}); }

template<typename M> int Deliver(const std::string & topic, const M & m)
{
  int n = 0;
  auto subs = W().subs;   // a callback may add subscriptions
  for (auto & s : subs) {
    if (s.topic == Norm(topic) && s.type == std::type_index(typeid(M))) {
      s.call(std::any(std::make_shared<M>(m)));
      n++;
    }
  }
  return n;
}
void Log(const char * level, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
}
