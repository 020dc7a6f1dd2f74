// Drives the real supervisor through its topics, its heartbeat timer, its parameter service and its
// health evaluation. The parameter-polling thread runs for real; its sleep is a hand-over point.
#include "drv.h"
#include <avoidance/avoidance_node.h>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <time.h>

using namespace drv;
using namespace avoidance;

// ---- the worker's pause: record it, hand control back, continue only when told to
static std::mutex gM;
static std::condition_variable gC;
static long gArrived = 0;      // pauses reached by the current worker
static long gAllowed = 0;      // pauses it may leave
static int64_t gPauseNs = 0;
static int64_t gSlept = 0;     // the pause before the latest round
static bool gResting = false;
static long gEpoch = 0;        // workers of earlier epochs park for ever
static pthread_t gMain;

static bool handover(int64_t ns) {
  if (pthread_equal(pthread_self(), gMain)) return false;
  std::unique_lock<std::mutex> l(gM);
  static thread_local long myEpoch = -1;
  if (myEpoch < 0) myEpoch = gEpoch;
  if (myEpoch != gEpoch) { l.unlock(); pthread_exit(nullptr); }
  if (gResting && gPauseNs < 1000000000000LL) { gPauseNs += ns; return true; }   // the pause may come in parts
  gResting = true;
  gPauseNs = ns;
  long me = ++gArrived;
  gC.notify_all();
  gC.wait(l, [&] { return gAllowed >= me || myEpoch != gEpoch; });
  if (myEpoch != gEpoch) { l.unlock(); pthread_exit(nullptr); }
  return true;
}
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { handover(t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { handover(t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }
extern "C" int usleep(useconds_t us) { handover(us * 1000LL); return 0; }

static AvoidanceNode* node = nullptr;
static std::vector<mavros_msgs::CompanionProcessStatus> hbs;
static std::map<std::string, long> reply;    // milli, or 2000000003 = failure
static std::vector<std::string> asked;
static const char* F[] = {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_JERK_MIN", "MPC_JERK_MAX",
                          "MPC_LAND_SPEED", "MPC_TKO_SPEED", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP",
                          "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"};
static double un(long v) { return v == NANV ? NAN : v == INFV ? INFINITY : v == -INFV ? -INFINITY : v / 1000.0; }

static std::string dump() {
  ModelParameters p = node->getPX4Parameters();
  J j;
  j.f("MPC_ACC_DOWN_MAX", p.param_mpc_acc_down_max).f("MPC_ACC_HOR", p.param_mpc_acc_hor)
      .f("MPC_ACC_UP_MAX", p.param_mpc_acc_up_max).f("MPC_JERK_MIN", p.param_mpc_jerk_min)
      .f("MPC_JERK_MAX", p.param_mpc_jerk_max).f("MPC_LAND_SPEED", p.param_mpc_land_speed)
      .f("MPC_TKO_SPEED", p.param_mpc_tko_speed).f("MPC_XY_CRUISE", p.param_mpc_xy_cruise)
      .f("MPC_Z_VEL_MAX_DN", p.param_mpc_z_vel_max_dn).f("MPC_Z_VEL_MAX_UP", p.param_mpc_z_vel_max_up)
      .f("CP_DIST", p.param_cp_dist).f("NAV_ACC_RAD", p.param_nav_acc_rad)
      .f("MPC_YAWRAUTO_MAX", p.param_mpc_yawrauto_max).i("MPC_AUTO_MODE", p.param_mpc_auto_mode);
  return j.str();
}

static void waitPause(long n) {
  std::unique_lock<std::mutex> l(gM);
  if (!gC.wait_for(l, std::chrono::seconds(20), [&] { return gArrived >= n; })) { fprintf(stderr, "worker never paused\n"); _exit(3); }
}

int main(int argc, char** argv) {
  gMain = pthread_self();
  rosstub::setNow(1000LL * 1000000000LL);
  rosstub::reg().onPublish = [](const std::string& topic, std::type_index, const boost::shared_ptr<const void>& m) {
    if (topic == "mavros/companion_process/status") hbs.push_back(*static_cast<const mavros_msgs::CompanionProcessStatus*>(m.get()));
  };
  rosstub::reg().services["mavros/param/get"] = [](void* p) {
    auto* s = static_cast<mavros_msgs::ParamGet*>(p);
    { std::lock_guard<std::mutex> l(gM); if (gResting) { gSlept = gPauseNs; gResting = false; } }
    asked.push_back(s->request.param_id);
    auto it = reply.find(s->request.param_id);
    if (it == reply.end() || it->second == 2000000003L) { s->response.success = false; s->response.value.real = 77.0; return true; }
    if (it->second == 2000000004L) return false;
    s->response.success = true;
    s->response.value.real = un(it->second);
    return true;
  };
  auto fresh = [] {
    { std::lock_guard<std::mutex> l(gM); gEpoch++; gArrived = gAllowed = 0; gSlept = gPauseNs = 0; gResting = false; gC.notify_all(); }
    rosstub::reg().timers.clear();
    rosstub::reg().subs.clear();
    reply.clear();
    asked.clear();
    ros::NodeHandle nh, pnh("~");
    node = new AvoidanceNode(nh, pnh);      // never destroyed: its polling thread is never joined
    node->init();
    waitPause(1);                           // the first round, all requests failing
    int st = static_cast<int>(node->getSystemStatus());
    out()(J("create").i("status", st));
    // the round performed at start-up, as a poll in which nothing answers
    J r; for (auto f : F) r.i(f, 2000000003L);
    std::string as; for (auto& a : asked) as += (as.empty() ? "\"" : ",\"") + a + "\"";
    out()(J("poll").raw("reply", r.str()).raw("asked", "[" + as + "]").i("slept", gSlept / 1000000000LL).raw("dump", dump()));
  };
  auto step = [](const std::string& op, Args& a) {
    if (op == "failsafe") {
      long c = a.i(), s = a.i(); bool h = a.i(), h0 = h;
      node->checkFailsafe(ros::Duration().fromNSec(c * 1000000LL), ros::Duration().fromNSec(s * 1000000LL), h);
      out()(J("failsafe").i("cloud", c).i("start", s).b("hover", h0).b("ohover", h).i("status", (int)node->getSystemStatus()));
    } else if (op == "setstatus") {
      int s = a.i();
      node->setSystemStatus(static_cast<MAV_STATE>(s));
      out()(J("setstatus").i("s", s).i("status", (int)node->getSystemStatus()));
    } else if (op == "hb") {
      hbs.clear();
      rosstub::advance(200000000LL);
      rosstub::fireByPeriod(0.2);
      int64_t now = rosstub::clock();
      J j("hb");
      j.i("n", hbs.size()).i("component", hbs.empty() ? -1 : hbs.back().component).i("state", hbs.empty() ? -1 : hbs.back().state);
      j.i("now", now / 1000000).i("stamp", hbs.empty() ? -1 : (int64_t)(hbs.back().header.stamp.toNSec() / 1000000));
      out()(j);
    } else if (op == "param") {
      std::string id = a.s(); long real = a.i(), in = a.i();
      mavros_msgs::Param m;
      m.param_id = id; m.value.real = un(real); m.value.integer = in;
      rosstub::inject("mavros/param/param_value", m);
      out()(J("param").s("id", id).i("real", real).i("int", in).raw("dump", dump()));
    } else if (op == "poll") {
      reply.clear(); asked.clear();
      J r;
      for (auto f : F) { long v = a.i(); reply[f] = v; r.i(f, v == 2000000004L ? 2000000003L : v); }
      long n; { std::lock_guard<std::mutex> l(gM); n = gArrived + 1; gAllowed = gArrived; gC.notify_all(); }
      waitPause(n);
      std::string as; for (auto& x : asked) as += (as.empty() ? "\"" : ",\"") + x + "\"";
      out()(J("poll").raw("reply", r.str()).raw("asked", "[" + as + "]").i("slept", gSlept / 1000000000LL).raw("dump", dump()));
    } else if (op == "mission") {
      mavros_msgs::WaypointList m;
      std::vector<std::string> its;
      int n = a.i();
      for (int k = 0; k < n; k++) {
        mavros_msgs::Waypoint w;
        w.is_current = a.i(); w.command = a.i(); w.param1 = a.i(); long sp = a.i(); w.param2 = un(sp);
        its.push_back(J().b("current", w.is_current).i("command", w.command).i("type", (int)w.param1).i("speed", sp).str());
        m.waypoints.push_back(w);
      }
      rosstub::inject("mavros/mission/waypoints", m);
      out()(J("mission").raw("items", jlist(its)).f("speed", node->getMissionItemSpeed()));
    }
  };
  return run(argc, argv, fresh, step);
}
