#pragma once
#include <rosstub/core.h>
namespace dynamic_reconfigure {
template <class C>
class Server {
 public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  static std::vector<Server*>& all() { static std::vector<Server*>* v = new std::vector<Server*>; return *v; }
  Server(const ros::NodeHandle& = ros::NodeHandle("~")) : mp_(&own_) { all().push_back(this); }
  Server(boost::recursive_mutex& m, const ros::NodeHandle& = ros::NodeHandle("~")) : mp_(&m) { all().push_back(this); }
  ~Server() { for (auto& s : all()) if (s == this) s = nullptr; }
  void setCallback(const CallbackType& f) { boost::recursive_mutex::scoped_lock l(*mp_); cb_ = f; if (cb_) cb_(config_, ~0u); }
  void clearCallback() { cb_.clear(); }
  void updateConfig(const C& c) { boost::recursive_mutex::scoped_lock l(*mp_); config_ = c; }
  void getConfigDefault(C& c) { c = C(); }
  void setConfigDefault(const C&) {}
  // harness: a client sets a new configuration
  void push(const C& c, uint32_t level) { boost::recursive_mutex::scoped_lock l(*mp_); config_ = c; if (cb_) cb_(config_, level); }
 private:
  boost::recursive_mutex own_; boost::recursive_mutex* mp_;
  C config_; CallbackType cb_;
};
}
namespace rosstub {
template <class C> void reconfigure(const C& c, uint32_t level = ~0u) { for (auto* s : dynamic_reconfigure::Server<C>::all()) if (s) s->push(c, level); }
}
