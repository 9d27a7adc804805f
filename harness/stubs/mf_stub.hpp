#pragma once
#include "rclcpp_stub.hpp"
// message_filters: Subscriber and Synchronizer with the ExactTime policy of ROS 2
namespace message_filters {
template<typename M> class Subscriber { public:
  using MType = M;
  Subscriber() {}
  template<typename N> Subscriber(N && node, const std::string & topic, const rmw_qos_profile_t & q = rmw_qos_profile_default) {subscribe(node, topic, q);}
  template<typename N> Subscriber(N && node, const std::string & topic, const rmw_qos_profile_t & q, rclcpp::SubscriptionOptions) {subscribe(node, topic, q);}
  template<typename N> void subscribe(N &&, const std::string & topic, const rmw_qos_profile_t & q = rmw_qos_profile_default)
  {
    auto h = handlers_;
    sim::W().subs.push_back(sim::Sub{sim::Norm(topic), std::type_index(typeid(M)),
        [h](std::any a) {auto m = std::any_cast<std::shared_ptr<M>>(a); for (auto & f : *h) f(std::shared_ptr<const M>(m));},
        q.reliability == 2 ? "best_effort" : "reliable", q.durability == 1 ? "transient_local" : "volatile", q.history == 2 ? "keep_all" : "keep_last", int(q.depth), topic});
  }
  template<typename F> void registerCallback(F f) {handlers_->push_back(f);}
  std::shared_ptr<std::vector<std::function<void(std::shared_ptr<const M>)>>> handlers_ =
    std::make_shared<std::vector<std::function<void(std::shared_ptr<const M>)>>>();
};
namespace sync_policies {
template<typename A, typename B> struct ExactTime { using M0 = A; using M1 = B; explicit ExactTime(uint32_t q) : queue(q) {} uint32_t queue; };
template<typename A, typename B> struct ApproximateTime;   // not provided: pairing by equal stamps only
}
template<typename P> class Synchronizer { public:
  using M0 = typename P::M0; using M1 = typename P::M1;
  Synchronizer(const P & p, Subscriber<M0> & a, Subscriber<M1> & b) : queue_(p.queue) {connectInput(a, b);}
  Synchronizer(Subscriber<M0> & a, Subscriber<M1> & b) : queue_(0) {connectInput(a, b);}
  explicit Synchronizer(const P & p) : queue_(p.queue) {}
  void connectInput(Subscriber<M0> & a, Subscriber<M1> & b)
  {
    a.registerCallback([this](std::shared_ptr<const M0> m) {auto & t = tuples_[Stamp(*m)]; t.first = m; Check(Stamp(*m));});
    b.registerCallback([this](std::shared_ptr<const M1> m) {auto & t = tuples_[Stamp(*m)]; t.second = m; Check(Stamp(*m));});
  }
  template<typename F> void registerCallback(F f) {cbs_.push_back([f](std::shared_ptr<const M0> a, std::shared_ptr<const M1> b) mutable {f(a, b);});}
  template<typename F> void registerCallback(F f) const = delete;
  template<typename R, typename C> void registerCallback(R (C::* f)(std::shared_ptr<const M0>, std::shared_ptr<const M1>), C * c)
  {cbs_.push_back([=](std::shared_ptr<const M0> a, std::shared_ptr<const M1> b) {(c->*f)(a, b);});}
private:
  using T = std::pair<std::shared_ptr<const M0>, std::shared_ptr<const M1>>;
  template<typename M> static int64_t Stamp(const M & m) {return int64_t(m.header.stamp.sec) * 1000000000LL + m.header.stamp.nanosec;}
  void Check(int64_t s)
  {
    T & t = tuples_[s];
    if (t.first && t.second) {
      T full = t;
      for (auto & f : cbs_) f(full.first, full.second);
      tuples_.erase(tuples_.begin(), tuples_.upper_bound(s));   // the pair itself and everything older
    }
    if (queue_ > 0) while (tuples_.size() > queue_) tuples_.erase(tuples_.begin());
  }
  std::map<int64_t, T> tuples_;
  uint32_t queue_;
  std::vector<std::function<void(std::shared_ptr<const M0>, std::shared_ptr<const M1>)>> cbs_;
};
}
