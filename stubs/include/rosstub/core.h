// Deterministic, single-process stand-in for the parts of ROS 1 that PX4-Avoidance uses.
// Time is a fake clock under the harness' control; topics are an in-process registry; timers
// never fire on their own: the harness calls their callbacks.
#pragma once
#include <iomanip>
#include <stdint.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeindex>
#include <vector>

#define BOOST_BIND_GLOBAL_PLACEHOLDERS 1
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/thread/recursive_mutex.hpp>
using namespace boost::placeholders;

// ------------------------------------------------------------------ logging: silent
namespace rosstub {
inline void logsink(const char*, ...) {}
struct NullStream {
  template <class T>
  NullStream& operator<<(const T&) {
    return *this;
  }
};
}
#define ROSSTUB_LOG(...) do { ::rosstub::logsink(__VA_ARGS__); } while (0)
#define ROSSTUB_LOGS(x) do { std::ostringstream rosstub_os__; rosstub_os__ << x; } while (0)
#define ROSSTUB_DEFLOG(L) 
#define ROS_DEBUG(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_INFO(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_WARN(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_ERROR(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_FATAL(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_INFO_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_WARN_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_DEBUG_THROTTLE(p, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (c) ROSSTUB_LOG(__VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) ROSSTUB_LOG(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) ROSSTUB_LOG(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) ROSSTUB_LOG(__VA_ARGS__); } while (0)
#define ROS_DEBUG_NAMED(n, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) ROSSTUB_LOG(__VA_ARGS__)
#define ROS_DEBUG_STREAM(x) ROSSTUB_LOGS(x)
#define ROS_INFO_STREAM(x) ROSSTUB_LOGS(x)
#define ROS_WARN_STREAM(x) ROSSTUB_LOGS(x)
#define ROS_ERROR_STREAM(x) ROSSTUB_LOGS(x)
#define ROS_FATAL_STREAM(x) ROSSTUB_LOGS(x)
#define ROS_WARN_STREAM_THROTTLE(p, x) ROSSTUB_LOGS(x)
#define ROS_INFO_STREAM_THROTTLE(p, x) ROSSTUB_LOGS(x)
#define ROS_ASSERT(x) do { } while (0)
#define NODELET_DEBUG(...) ROSSTUB_LOG(__VA_ARGS__)
#define NODELET_INFO(...) ROSSTUB_LOG(__VA_ARGS__)
#define NODELET_WARN(...) ROSSTUB_LOG(__VA_ARGS__)
#define NODELET_ERROR(...) ROSSTUB_LOG(__VA_ARGS__)
#define ROSCONSOLE_DEFAULT_NAME "ros"

namespace rosstub {
// The fake clock, in nanoseconds. Starts at 1000 s so that "now - ros::Time(0)" is large, as it is in practice.
inline std::atomic<int64_t>& clock() {
  static std::atomic<int64_t> c{1000LL * 1000000000LL};
  return c;
}
// Called whenever the code under test sleeps on ROS time; by default the clock moves on.
inline std::function<void(int64_t)>& sleepHook() {
  static std::function<void(int64_t)> f;
  return f;
}
inline void setNow(int64_t ns) { clock() = ns; }
inline void advance(int64_t ns) { clock() += ns; }
}

namespace ros {
template <class T>
class DurationBase {
 public:
  int32_t sec = 0, nsec = 0;
  DurationBase() {}
  DurationBase(int32_t s, int32_t n) { norm((int64_t)s * 1000000000LL + n); }
  explicit DurationBase(double d) { fromSec(d); }
  void norm(int64_t ns) {
    int64_t s = ns / 1000000000LL, n = ns % 1000000000LL;
    if (n < 0) { n += 1000000000LL; s -= 1; }
    sec = (int32_t)s; nsec = (int32_t)n;
  }
  T& fromSec(double d) {
    int64_t s = (int64_t)std::floor(d);
    int64_t n = (int64_t)std::round((d - (double)s) * 1e9);
    norm(s * 1000000000LL + n);
    return *static_cast<T*>(this);
  }
  T& fromNSec(int64_t t) { norm(t); return *static_cast<T*>(this); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000LL + (int64_t)nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  T operator+(const T& o) const { T r; r.norm(toNSec() + o.toNSec()); return r; }
  T operator-(const T& o) const { T r; r.norm(toNSec() - o.toNSec()); return r; }
  T operator-() const { T r; r.norm(-toNSec()); return r; }
  T operator*(double s) const { return T(toSec() * s); }
  T& operator+=(const T& o) { norm(toNSec() + o.toNSec()); return *static_cast<T*>(this); }
  T& operator-=(const T& o) { norm(toNSec() - o.toNSec()); return *static_cast<T*>(this); }
  T& operator*=(double s) { fromSec(toSec() * s); return *static_cast<T*>(this); }
  bool operator==(const T& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const T& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const T& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const T& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const T& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const T& o) const { return toNSec() >= o.toNSec(); }
};
class Duration : public DurationBase<Duration> {
 public:
  using DurationBase<Duration>::DurationBase;
  Duration() {}
  bool sleep() const {
    if (rosstub::sleepHook()) rosstub::sleepHook()(toNSec());
    else if (toNSec() > 0) rosstub::advance(toNSec());
    return true;
  }
};
class WallDuration : public DurationBase<WallDuration> {
 public:
  using DurationBase<WallDuration>::DurationBase;
  WallDuration() {}
  bool sleep() const { return true; }
};

template <class T, class D>
class TimeBase {
 public:
  uint32_t sec = 0, nsec = 0;
  TimeBase() {}
  TimeBase(uint32_t s, uint32_t n) { norm((int64_t)s * 1000000000LL + n); }
  explicit TimeBase(double d) { fromSec(d); }
  void norm(int64_t ns) {
    if (ns < 0) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)(ns / 1000000000LL); nsec = (uint32_t)(ns % 1000000000LL);
  }
  T& fromSec(double d) {
    int64_t s = (int64_t)std::floor(d);
    int64_t n = (int64_t)std::round((d - (double)s) * 1e9);
    norm(s * 1000000000LL + n);
    return *static_cast<T*>(this);
  }
  T& fromNSec(uint64_t t) { norm((int64_t)t); return *static_cast<T*>(this); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + (uint64_t)nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  D operator-(const T& o) const { D r; r.norm((int64_t)toNSec() - (int64_t)o.toNSec()); return r; }
  T operator+(const D& d) const { T r; r.norm((int64_t)toNSec() + d.toNSec()); return r; }
  T operator-(const D& d) const { T r; r.norm((int64_t)toNSec() - d.toNSec()); return r; }
  T& operator+=(const D& d) { norm((int64_t)toNSec() + d.toNSec()); return *static_cast<T*>(this); }
  T& operator-=(const D& d) { norm((int64_t)toNSec() - d.toNSec()); return *static_cast<T*>(this); }
  bool operator==(const T& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const T& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const T& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const T& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const T& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const T& o) const { return toNSec() >= o.toNSec(); }
};
class Time : public TimeBase<Time, Duration> {
 public:
  using TimeBase<Time, Duration>::TimeBase;
  Time() {}
  static Time now() { Time t; t.norm(rosstub::clock()); return t; }
  static void init() {}
  static bool isValid() { return true; }
  static bool isSimTime() { return true; }
  static bool waitForValid() { return true; }
};
class WallTime : public TimeBase<WallTime, WallDuration> {
 public:
  using TimeBase<WallTime, WallDuration>::TimeBase;
  WallTime() {}
  static WallTime now() { WallTime t; t.norm(rosstub::clock()); return t; }
};
static const Time TIME_MIN(0, 1);
static const Duration DURATION_MAX(0x7fffffff, 999999999);
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }
class Rate {
  double hz_;
 public:
  Rate(double hz) : hz_(hz) {}
  bool sleep() { Duration(1.0 / hz_).sleep(); return true; }
  void reset() {}
};

struct TimerEvent {
  Time last_expected, last_real, current_expected, current_real;
  struct { WallDuration last_duration; } profile;
};
struct WallTimerEvent {};

class CallbackQueue;
}  // namespace ros

namespace rosstub {
struct TimerImpl {
  ros::Duration period;
  boost::function<void(const ros::TimerEvent&)> cb;
  ros::CallbackQueue* queue = nullptr;
  bool oneshot = false;
  bool running = true;
};
struct Sub {
  std::string topic;
  std::type_index type{typeid(void)};
  std::function<void(const boost::shared_ptr<const void>&)> cb;
  bool active = true;
};
struct Param {
  int kind = 0;  // 1 bool 2 int 3 double 4 string 5 vector<string>
  bool b = false;
  int i = 0;
  double d = 0;
  std::string s;
  std::vector<std::string> vs;
};
struct Registry {
  std::recursive_mutex m;
  std::vector<std::shared_ptr<TimerImpl>> timers;
  std::vector<std::shared_ptr<Sub>> subs;
  std::map<std::string, Param> params;
  // Observers of published messages: topic -> callback(type, msg)
  std::function<void(const std::string&, std::type_index, const boost::shared_ptr<const void>&)> onPublish;
  std::map<std::string, std::function<bool(void*)>> services;
  std::vector<std::string> advertised;
  std::map<std::string, bool> unsub;
  bool ok = true;
  // called from CallbackQueue::callAvailable on the global queue
  std::function<void()> onCallAvailable;
  std::function<void()> onSpinnerStop;
  bool loopback = false;  // deliver published messages to in-process subscribers
};
inline Registry& reg() {
  static Registry* r = new Registry;  // leaked: code under test may outlive main
  return *r;
}
// "/a//b/" , "a/b" -> "a/b"
inline std::string canon(const std::string& t) {
  std::string r;
  for (char c : t) {
    if (c == '/' && (r.empty() || r.back() == '/')) continue;
    r += c;
  }
  while (!r.empty() && r.back() == '/') r.pop_back();
  return r;
}
template <class M>
inline int inject(const std::string& topic, const M& msg) {
  std::vector<std::shared_ptr<Sub>> todo;
  {
    std::lock_guard<std::recursive_mutex> l(reg().m);
    auto& ss = reg().subs;   // a subscription ends when its last handle is destroyed
    ss.erase(std::remove_if(ss.begin(), ss.end(), [](const std::shared_ptr<Sub>& t) { return t.use_count() == 1; }), ss.end());
    for (auto& s : ss)
      if (s->active && s->topic == canon(topic) && s->type == std::type_index(typeid(M))) todo.push_back(s);
  }
  auto p = boost::make_shared<M>(msg);
  for (auto& s : todo) s->cb(boost::static_pointer_cast<const void>(boost::shared_ptr<const M>(p)));
  return (int)todo.size();
}
inline void fire(const std::shared_ptr<TimerImpl>& t) {
  ros::TimerEvent e;
  e.current_expected = e.current_real = ros::Time::now();
  if (t->running) t->cb(e);
}
// Fire every running timer whose period matches (in ns, +-1us); returns how many fired.
inline int fireByPeriod(double period_s) {
  std::vector<std::shared_ptr<TimerImpl>> todo;
  {
    std::lock_guard<std::recursive_mutex> l(reg().m);
    // as in ROS, a timer stops when its last handle is destroyed
    auto& ts = reg().timers;
    ts.erase(std::remove_if(ts.begin(), ts.end(), [](const std::shared_ptr<TimerImpl>& t) { return t.use_count() == 1; }), ts.end());
    for (auto& t : ts)
      if (t->running && std::fabs(t->period.toSec() - period_s) < 1e-6) todo.push_back(t);
  }
  for (auto& t : todo) fire(t);
  return (int)todo.size();
}
}  // namespace rosstub

namespace ros {
inline bool ok() { return rosstub::reg().ok; }
inline void shutdown() { rosstub::reg().ok = false; }
inline void requestShutdown() { rosstub::reg().ok = false; }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spin() {}
inline void spinOnce() {}
inline void start() {}
inline bool isInitialized() { return true; }
namespace console {
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}
namespace this_node {
inline std::string& nameRef() { static std::string n = "node"; return n; }
inline const std::string& getName() { return nameRef(); }
inline std::string getNamespace() { return ""; }
}
typedef std::map<std::string, std::string> M_string;
namespace names {
inline const M_string& getRemappings() { static M_string m; return m; }
inline std::string resolve(const std::string& s) { return s; }
}

class CallbackQueue {
 public:
  CallbackQueue(bool = true) {}
  void callAvailable(WallDuration d = WallDuration()) {
    if (rosstub::reg().onCallAvailable) rosstub::reg().onCallAvailable();
    else rosstub::advance(d.toNSec());
  }
  enum CallOneResult { Called, TryAgain, Disabled, Empty };
  CallOneResult callOne(WallDuration d = WallDuration()) { callAvailable(d); return Called; }
  void clear() {}
  void enable() {}
  void disable() {}
  bool isEmpty() { return true; }
};
typedef CallbackQueue CallbackQueueInterface;
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue* q = new CallbackQueue; return q; }

class AsyncSpinner {
 public:
  AsyncSpinner(uint32_t, CallbackQueue* = nullptr) {}
  void start() {}
  void stop() { if (rosstub::reg().onSpinnerStop) rosstub::reg().onSpinnerStop(); }   // waits for the callback that runs
  bool canStart() { return true; }
};
class MultiThreadedSpinner { public: MultiThreadedSpinner(uint32_t = 0) {} void spin() {} };

class Timer {
 public:
  std::shared_ptr<rosstub::TimerImpl> impl;
  void start() { if (impl) impl->running = true; }
  void stop() { if (impl) impl->running = false; }
  void setPeriod(const Duration& d, bool = true) { if (impl) impl->period = d; }
  bool isValid() const { return (bool)impl; }
  bool hasStarted() const { return impl && impl->running; }
  bool hasPending() { return false; }
  operator void*() const { return impl ? (void*)1 : nullptr; }
};
typedef Timer WallTimer;
typedef boost::function<void(const TimerEvent&)> TimerCallback;
struct TimerOptions {
  Duration period;
  TimerCallback callback;
  CallbackQueue* callback_queue = nullptr;
  bool oneshot = false, autostart = true;
  TimerOptions() {}
  TimerOptions(Duration p, const TimerCallback& cb, CallbackQueue* q, bool os = false, bool as = true)
      : period(p), callback(cb), callback_queue(q), oneshot(os), autostart(as) {}
};

class Publisher {
 public:
  std::string topic;
  std::type_index type{typeid(void)};
  template <class M>
  void publish(const M& m) const { out(boost::shared_ptr<const M>(boost::make_shared<M>(m))); }
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const { out(boost::shared_ptr<const M>(m)); }
  template <class M>
  void out(const boost::shared_ptr<const M>& m) const {
    if (topic.empty()) return;  // never advertised: ROS would assert/ignore
    auto& r = rosstub::reg();
    std::function<void(const std::string&, std::type_index, const boost::shared_ptr<const void>&)> f;
    {
      std::lock_guard<std::recursive_mutex> l(r.m);
      f = r.onPublish;
    }
    if (f) f(topic, std::type_index(typeid(M)), boost::static_pointer_cast<const void>(m));
    if (r.loopback) rosstub::inject<M>(topic, *m);
  }
  uint32_t getNumSubscribers() const { return 1; }
  std::string getTopic() const { return topic; }
  void shutdown() { topic.clear(); }
  bool isLatched() const { return false; }
  operator void*() const { return topic.empty() ? nullptr : (void*)1; }
};
class Subscriber {
 public:
  std::shared_ptr<rosstub::Sub> impl;
  void shutdown() { if (impl) impl->active = false; }
  std::string getTopic() const { return impl ? impl->topic : ""; }
  uint32_t getNumPublishers() const { return 1; }
  operator void*() const { return impl ? (void*)1 : nullptr; }
};
class ServiceClient {
 public:
  std::string name;
  template <class S>
  bool call(S& s) {
    std::function<bool(void*)> f;
    {
      std::lock_guard<std::recursive_mutex> l(rosstub::reg().m);
      auto it = rosstub::reg().services.find(name);
      if (it == rosstub::reg().services.end()) return false;
      f = it->second;
    }
    return f(&s);
  }
  bool exists() { return true; }
  bool waitForExistence(Duration = Duration(-1, 0)) { return true; }
  bool isValid() const { return true; }
  void shutdown() {}
};
class ServiceServer {};
class TransportHints {
 public:
  TransportHints& tcpNoDelay(bool = true) { return *this; }
  TransportHints& udp() { return *this; }
  TransportHints& unreliable() { return *this; }
};
template <class M>
struct MessageEvent {};

class NodeHandle {
  std::string ns_;
  template <class M>
  Subscriber add(const std::string& topic, std::function<void(const boost::shared_ptr<const void>&)> cb) {
    Subscriber s;
    s.impl = std::make_shared<rosstub::Sub>();
    s.impl->topic = rosstub::canon(topic);
    s.impl->type = std::type_index(typeid(M));
    s.impl->cb = cb;
    std::lock_guard<std::recursive_mutex> l(rosstub::reg().m);
    rosstub::reg().subs.push_back(s.impl);
    return s;
  }
  template <class T> struct bare { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
  template <class T> struct msgOf { typedef typename bare<T>::type type; };
  template <class T> struct msgOf<boost::shared_ptr<T>> { typedef typename bare<T>::type type; };
  template <class P>
  struct call {
    typedef typename bare<P>::type M;
    template <class F>
    static void go(F& f, const boost::shared_ptr<const void>& p) { M copy = *boost::static_pointer_cast<const M>(p); f(copy); }
  };
  template <class T>
  struct callp {
    template <class F>
    static void go(F& f, const boost::shared_ptr<const void>& p) { f(boost::static_pointer_cast<T>(p)); }
  };

 public:
  NodeHandle(const std::string& ns = "") : ns_(ns) {}
  NodeHandle(const NodeHandle& p, const std::string& ns) : ns_(p.ns_.empty() ? ns : p.ns_ + "/" + ns) {}
  const std::string& getNamespace() const { return ns_; }
  std::string pkey(const std::string& k) const { return rosstub::canon(ns_ == "~" ? "~/" + k : k); }
  std::string resolveName(const std::string& n) const { return n; }
  bool ok() const { return ros::ok(); }
  void shutdown() {}
  void setCallbackQueue(CallbackQueue*) {}

  // const M& callbacks (also subscribe<const M&>(...))
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*fp)(M), T* obj, const TransportHints& = TransportHints()) {
    return subImpl<M, T>(topic, fp, obj, std::integral_constant<bool, isPtr<M>::value>());
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*fp)(M) const, T* obj, const TransportHints& = TransportHints()) {
    std::function<void(M)> f = [obj, fp](M m) { (obj->*fp)(m); };
    return subF<M>(topic, f, std::integral_constant<bool, isPtr<M>::value>());
  }
  // boost::function on ConstPtr: subscribe<M>(topic, q, bind(...))
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>& f,
                       const boost::shared_ptr<const void>& = boost::shared_ptr<const void>(), const TransportHints& = TransportHints()) {
    return add<typename bare<M>::type>(topic, [f](const boost::shared_ptr<const void>& p) {
      f(boost::static_pointer_cast<const typename bare<M>::type>(p));
    });
  }
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t, void (*fp)(M), const TransportHints& = TransportHints()) {
    std::function<void(M)> f = fp;
    return subF<M>(topic, f, std::integral_constant<bool, isPtr<M>::value>());
  }

 private:
  template <class P> struct isPtr : std::false_type {};
  template <class M, class T>
  Subscriber subImpl(const std::string& topic, void (T::*fp)(M), T* obj, std::integral_constant<bool, false>) {
    typedef typename bare<M>::type B;
    return subDispatch<B>(topic, [obj, fp](B& m) { (obj->*fp)(m); }, (B*)nullptr);
  }
  template <class B, class F>
  Subscriber subDispatch(const std::string& topic, F f, B*) {
    return add<B>(topic, [f](const boost::shared_ptr<const void>& p) {
      B copy = *boost::static_pointer_cast<const B>(p);
      f(copy);
    });
  }
  // shared_ptr argument
  template <class B, class F, class X>
  Subscriber subDispatch(const std::string& topic, F f, boost::shared_ptr<X>*) {
    typedef typename std::remove_const<X>::type M;
    return add<M>(topic, [f](const boost::shared_ptr<const void>& p) {
      boost::shared_ptr<X> q = boost::const_pointer_cast<M>(boost::static_pointer_cast<const M>(p));
      f(q);
    });
  }
  template <class M>
  Subscriber subF(const std::string& topic, std::function<void(M)> fn, std::integral_constant<bool, false>) {
    typedef typename bare<M>::type B;
    return subDispatch<B>(topic, [fn](B& m) { fn(m); }, (B*)nullptr);
  }

 public:
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    Publisher p;
    p.topic = rosstub::canon(topic);
    p.type = std::type_index(typeid(M));
    std::lock_guard<std::recursive_mutex> l(rosstub::reg().m);
    rosstub::reg().advertised.push_back(p.topic);
    return p;
  }
  template <class S>
  ServiceClient serviceClient(const std::string& name, bool = false) { ServiceClient c; c.name = rosstub::canon(name); return c; }
  Timer createTimer(const TimerOptions& o) const {
    Timer t;
    t.impl = std::make_shared<rosstub::TimerImpl>();
    t.impl->period = o.period;
    t.impl->cb = o.callback;
    t.impl->queue = o.callback_queue;
    t.impl->oneshot = o.oneshot;
    t.impl->running = o.autostart;
    std::lock_guard<std::recursive_mutex> l(rosstub::reg().m);
    rosstub::reg().timers.push_back(t.impl);
    return t;
  }
  Timer createTimer(TimerOptions& o) const { return createTimer(static_cast<const TimerOptions&>(o)); }
  Timer createTimer(Duration p, const TimerCallback& cb, bool os = false, bool as = true) const {
    return createTimer(TimerOptions(p, cb, nullptr, os, as));
  }
  template <class T>
  Timer createTimer(Duration p, void (T::*fp)(const TimerEvent&), T* obj, bool os = false, bool as = true) const {
    return createTimer(TimerOptions(p, [obj, fp](const TimerEvent& e) { (obj->*fp)(e); }, nullptr, os, as));
  }
  template <class T>
  Timer createTimer(Rate, void (T::*fp)(const TimerEvent&), T* obj) const { return createTimer(Duration(0.1), fp, obj); }

  bool hasParam(const std::string& k) const { std::lock_guard<std::recursive_mutex> l(rosstub::reg().m); return rosstub::reg().params.count(pkey(k)) > 0; }
  const rosstub::Param* find(const std::string& k) const {
    auto it = rosstub::reg().params.find(pkey(k));
    return it == rosstub::reg().params.end() ? nullptr : &it->second;
  }
  bool getParam(const std::string& k, bool& v) const { auto p = find(k); if (!p || p->kind != 1) return false; v = p->b; return true; }
  bool getParam(const std::string& k, int& v) const { auto p = find(k); if (!p || p->kind != 2) return false; v = p->i; return true; }
  bool getParam(const std::string& k, double& v) const { auto p = find(k); if (!p) return false; if (p->kind == 3) v = p->d; else if (p->kind == 2) v = p->i; else return false; return true; }
  bool getParam(const std::string& k, float& v) const { double d; if (!getParam(k, d)) return false; v = (float)d; return true; }
  bool getParam(const std::string& k, std::string& v) const { auto p = find(k); if (!p || p->kind != 4) return false; v = p->s; return true; }
  bool getParam(const std::string& k, std::vector<std::string>& v) const { auto p = find(k); if (!p || p->kind != 5) return false; v = p->vs; return true; }
  template <class T>
  bool param(const std::string& k, T& v, const T& def) const { T t; if (getParam(k, t)) { v = t; return true; } v = def; return false; }
  template <class T>
  T param(const std::string& k, const T& def) const { T t; if (getParam(k, t)) return t; return def; }
  void setParam(const std::string& k, bool v) const { rosstub::Param p; p.kind = 1; p.b = v; rosstub::reg().params[pkey(k)] = p; }
  void setParam(const std::string& k, int v) const { rosstub::Param p; p.kind = 2; p.i = v; rosstub::reg().params[pkey(k)] = p; }
  void setParam(const std::string& k, double v) const { rosstub::Param p; p.kind = 3; p.d = v; rosstub::reg().params[pkey(k)] = p; }
  void setParam(const std::string& k, const std::string& v) const { rosstub::Param p; p.kind = 4; p.s = v; rosstub::reg().params[pkey(k)] = p; }
  void setParam(const std::string& k, const char* v) const { setParam(k, std::string(v)); }
  void setParam(const std::string& k, const std::vector<std::string>& v) const { rosstub::Param p; p.kind = 5; p.vs = v; rosstub::reg().params[pkey(k)] = p; }
};
namespace param {
template <class T> bool get(const std::string& k, T& v) { return NodeHandle().getParam(k, v); }
template <class T> void set(const std::string& k, const T& v) { NodeHandle().setParam(k, v); }
inline bool has(const std::string& k) { return NodeHandle().hasParam(k); }
template <class T> bool param(const std::string& k, T& v, const T& d) { return NodeHandle().param(k, v, d); }
}
}  // namespace ros
