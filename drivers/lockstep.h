// Deterministic scheduling of the real code's threads. Every thread the code under test creates is
// parked at its synchronisation points (thread start, mutex acquisition and release, condition wait, sleep, and
// explicit poll points) and runs only when the driver grants it the next step, so an interleaving is a
// plain list of "step thread t" operations and can be generated from the specification.
// Works by defining the pthread functions in the executable; include from one translation unit only.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <functional>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sched {
enum Where { Start, Lock, Unlocked, Cond, TimedCond, Sleep, Poll, Join, Done };
struct T {
  int id = 0;
  std::string name;
  sem_t go;
  Where at = Start;
  void* obj = nullptr;
  bool signalled = false, timedout = false, failed = false;   // failed: last acquisition attempt found the mutex taken
  int64_t ns = 0;
  pthread_t h;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
inline std::vector<T*>& threads() { static auto* v = new std::vector<T*>; return *v; }
inline sem_t& back() { static sem_t s; static bool i = (sem_init(&s, 0, 0), true); (void)i; return s; }
inline thread_local T* self = nullptr;
inline bool enabled = false;          // threads created while enabled are controlled
inline bool timeIsVirtual = true;     // sleeps of controlled threads do not take real time
inline std::function<void(T*)> onSleep;
inline void down(sem_t& s) { while (sem_wait(&s) != 0 && errno == EINTR) {} }

inline void yield(Where w, void* obj = nullptr, int64_t ns = 0) {
  T* t = self;
  t->at = w; t->obj = obj; t->ns = ns;
  sem_post(&back());
  down(t->go);
}
inline bool waiting(const T* t) { return (t->at == Cond || t->at == TimedCond) && !t->signalled && !t->timedout; }
inline bool runnable(const T* t) { return t->at != Done && !waiting(t); }
// run t to its next synchronisation point; false if it cannot run
inline bool step(T* t) {
  if (!runnable(t)) return false;
  t->failed = false;
  sem_post(&t->go);
  down(back());
  return true;
}
inline bool expire(T* t) {            // let a timed wait run out
  if (t->at != TimedCond || t->signalled) return false;
  t->timedout = true;
  return true;
}
inline void poll() { if (self) yield(Poll); }

template <class F> F real(const char* n, const char* ver = nullptr) {
  void* p = ver ? dlvsym(RTLD_NEXT, n, ver) : nullptr;
  if (!p) p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "no %s\n", n); _exit(3); }
  return reinterpret_cast<F>(p);
}
inline void* entry(void* p) {
  self = static_cast<T*>(p);
  down(self->go);
  void* r = self->fn(self->arg);
  self->at = Done;
  sem_post(&back());
  return r;
}
inline T* spawn(const std::string& name, void* (*fn)(void*), void* arg, pthread_t* out = nullptr, size_t stack = 4u << 20) {
  static auto create = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create", "GLIBC_2.34");
  T* t = new T;
  sem_init(&t->go, 0, 0);
  t->name = name; t->fn = fn; t->arg = arg; t->id = (int)threads().size();
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, stack);
  if (create(&t->h, &at, entry, t)) { fprintf(stderr, "cannot create a thread\n"); _exit(3); }
  pthread_attr_destroy(&at);
  if (out) *out = t->h;
  threads().push_back(t);
  return t;
}
inline T* spawn(const std::string& name, std::function<void()> f) {
  auto* p = new std::function<void()>(std::move(f));
  return spawn(name, [](void* q) -> void* { auto* g = static_cast<std::function<void()>*>(q); (*g)(); delete g; return nullptr; }, p);
}
// one step for everybody who can move; true if anybody got anywhere
inline bool round(const std::function<bool(T*)>& may = nullptr) {
  bool any = false;
  auto ts = threads();
  for (T* t : ts) if (runnable(t) && (!may || may(t))) { step(t); if (!t->failed) any = true; }
  return any;
}
inline void forget() { threads().clear(); }   // whoever is still parked stays parked for ever

inline bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
inline int acquire(pthread_mutex_t* m, bool point) {
  static auto lock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  static auto trylock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!self) {
    if (threads().empty()) return lock(m);
    for (long n = 0; trylock(m) == EBUSY; n++) {       // the controller waits: let the others get on
      if (!round() || n > 200000) { fprintf(stderr, "DEADLOCK in the controller\n"); _exit(4); }
    }
    return 0;
  }
  if (point && !recursive(m)) yield(Lock, m);
  for (;;) {
    int r = trylock(m);
    if (r != EBUSY) return r;
    self->failed = true;
    yield(Lock, m);
  }
}
inline int wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  static auto unlock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  self->signalled = self->timedout = false;
  unlock(m);
  yield(timed ? TimedCond : Cond, c);
  bool to = self->timedout && !self->signalled;
  self->signalled = self->timedout = false;
  self->obj = nullptr;
  acquire(m, false);
  return to ? ETIMEDOUT : 0;
}
inline void notify(pthread_cond_t* c, bool all) {
  for (T* t : threads())
    if ((t->at == Cond || t->at == TimedCond) && t->obj == c && !t->signalled && !t->timedout) { t->signalled = true; if (!all) return; }
}
}  // namespace sched

extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* p) {
  static auto create = sched::real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create", "GLIBC_2.34");
  if (!sched::enabled) return create(h, a, f, p);
  sched::spawn("t" + std::to_string(sched::threads().size()), f, p, h);
  return 0;
}
int pthread_join(pthread_t h, void** r) {
  static auto join = sched::real<int (*)(pthread_t, void**)>("pthread_join", "GLIBC_2.34");
  sched::T* t = nullptr;
  for (auto* x : sched::threads()) if (pthread_equal(x->h, h)) t = x;
  if (!t) return join(h, r);
  for (long n = 0; t->at != sched::Done; n++) {
    if (sched::self) { sched::yield(sched::Join, t); continue; }
    if (!sched::round()) {
      bool any = false;                                  // only timed waits are left
      for (auto* x : sched::threads()) any = sched::expire(x) || any;
      if (!any) { fprintf(stderr, "DEADLOCK in join\n"); _exit(4); }
    }
    if (n > 1000000) { fprintf(stderr, "DEADLOCK in join (no end)\n"); _exit(4); }
  }
  return join(h, r);
}
int pthread_mutex_lock(pthread_mutex_t* m) { return sched::acquire(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto unlock = sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  bool rec = sched::recursive(m);
  int r = unlock(m);
  if (sched::self && !rec) sched::yield(sched::Unlocked, m);
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!sched::self) { fprintf(stderr, "the controller waits for a condition\n"); _exit(4); }
  return sched::wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  if (!sched::self) return ETIMEDOUT;
  return sched::wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
  if (!sched::self) return ETIMEDOUT;
  return sched::wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) { sched::notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { sched::notify(c, true); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) {
  if (sched::self) sched::yield(sched::Sleep, nullptr, t->tv_sec * 1000000000LL + t->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) {
  if (sched::self) sched::yield(sched::Sleep, nullptr, t->tv_sec * 1000000000LL + t->tv_nsec);
  return 0;
}
int usleep(useconds_t us) { if (sched::self) sched::yield(sched::Sleep, nullptr, us * 1000LL); return 0; }
}
