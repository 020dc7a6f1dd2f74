// Drives the real local planner nodelet: flight controller messages, clouds of several cameras, transforms, its
// timer (in a thread of its own, as its spinner does), its worker, transform and camera threads, under a
// schedule chosen by the script. What the planner and the waypoint generator are given is recorded at their
// interfaces (linker option --wrap), what is sent to the flight controller when it is published.
#include "lockstep.h"
#include "drv.h"
#include <malloc.h>
#include <cstring>
#include <set>
#include "local_planner/local_planner_nodelet.h"
#include "local_planner/local_planner.h"
#include "local_planner/waypoint_generator.h"
using namespace drv;
using namespace avoidance;

// whatever is not initialised shows
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xff, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static const int64_t T0 = 1000LL * 1000000000LL;
static const double D2R = M_PI / 180.0;
static long nowMs() { return (long)((rosstub::clock() - T0) / 1000000LL); }
static ros::Time at(long ms) { ros::Time t; t.fromNSec(T0 + ms * 1000000LL); return t; }
static long ms(const ros::Time& t) { return sat(((int64_t)t.toNSec() - T0) / 1000000LL); }
static LocalPlannerNodelet* node = nullptr;
static int ncams = 0;
static bool ticking = false;
static bool watching = false;                                    // the displays are recorded, too
static long events = 0;
static sched::T *M = nullptr, *S = nullptr, *D = nullptr;
static bool ending = false;
static std::map<std::string, std::function<void()>> queued;      // one waiting message per topic, as configured
static std::vector<std::string> order;
static std::set<std::string> busy;                               // a subscriber gets one message at a time
static std::map<std::pair<std::string, std::string>, int64_t> inserted;
static void ev(const J& j) { out()(j); events++; }
static void enqueue(const std::string& topic, std::function<void()> f) {
  if (!queued.count(topic)) order.push_back(topic);
  queued[topic] = f;
}
static void callAvailable() {
  if (!sched::self) return;
  sched::yield(sched::Poll);
  auto now = order;
  for (auto& t : now) {
    if (!queued.count(t) || busy.count(t)) continue;
    auto f = queued[t];
    queued.erase(t);
    order.erase(std::find(order.begin(), order.end(), t));
    busy.insert(t);
    f();
    busy.erase(t);
  }
  if (sched::self == M) out()(J("pass").i("now", nowMs()));
}
static std::vector<long> v3(const Eigen::Vector3f& v) { return {fx(v.x()), fx(v.y()), fx(v.z())}; }
static std::string list(const std::vector<long>& v) {
  std::string o = "[";
  for (size_t k = 0; k < v.size(); k++) o += (k ? "," : "") + std::to_string(v[k]);
  return o + "]";
}
static double yawOf(const Eigen::Quaternionf& q) { return atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z())) / D2R; }
// ------------------------------------------------------------------ recorded interfaces
struct In { Eigen::Vector3f pos, vel, prev = Eigen::Vector3f::Zero(); Eigen::Quaternionf q; std::map<int, FOV> fov, wfov; } in;
static std::string fovs(std::map<int, FOV>& m) {
  std::vector<std::string> o;
  for (auto& f : m) o.push_back(list({fx(f.second.yaw_deg, 100), fx(f.second.pitch_deg, 100), fx(f.second.h_fov_deg, 100), fx(f.second.v_fov_deg, 100)}));
  return jlist(o);
}
#define RAW(name) __real_##name
extern "C" {
void __real__ZN9avoidance12LocalPlanner8setStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEES5_RKNS1_10QuaternionIfLi0EEE(LocalPlanner*, const Eigen::Vector3f&, const Eigen::Vector3f&, const Eigen::Quaternionf&);
void __wrap__ZN9avoidance12LocalPlanner8setStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEES5_RKNS1_10QuaternionIfLi0EEE(LocalPlanner* l, const Eigen::Vector3f& p, const Eigen::Vector3f& v, const Eigen::Quaternionf& q) {
  in.pos = p; in.vel = v; in.q = q;
  __real__ZN9avoidance12LocalPlanner8setStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEES5_RKNS1_10QuaternionIfLi0EEE(l, p, v, q);
}
void __real__ZN9avoidance12LocalPlanner7setGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE(LocalPlanner*, const Eigen::Vector3f&);
void __wrap__ZN9avoidance12LocalPlanner7setGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE(LocalPlanner* l, const Eigen::Vector3f& g) {
  __real__ZN9avoidance12LocalPlanner7setGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE(l, g);
  if (sched::self) sched::yield(sched::Unlocked);      // others may get on between any two of its inputs
}
void __real__ZN9avoidance12LocalPlanner15setPreviousGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE(LocalPlanner*, const Eigen::Vector3f&);
void __wrap__ZN9avoidance12LocalPlanner15setPreviousGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE(LocalPlanner* l, const Eigen::Vector3f& g) {
  in.prev = g;
  __real__ZN9avoidance12LocalPlanner15setPreviousGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE(l, g);
  if (sched::self) sched::yield(sched::Unlocked);
}
void __real__ZN9avoidance12LocalPlanner6setFOVEiRKNS_3FOVE(LocalPlanner*, int, const FOV&);
void __wrap__ZN9avoidance12LocalPlanner6setFOVEiRKNS_3FOVE(LocalPlanner* l, int i, const FOV& f) { in.fov[i] = f; __real__ZN9avoidance12LocalPlanner6setFOVEiRKNS_3FOVE(l, i, f); }
void __real__ZN9avoidance17WaypointGenerator6setFOVEiRKNS_3FOVE(WaypointGenerator*, int, const FOV&);
void __wrap__ZN9avoidance17WaypointGenerator6setFOVEiRKNS_3FOVE(WaypointGenerator* w, int i, const FOV& f) { in.wfov[i] = f; __real__ZN9avoidance17WaypointGenerator6setFOVEiRKNS_3FOVE(w, i, f); }
void __real__ZN9avoidance12LocalPlanner10runPlannerEv(LocalPlanner*);
void __wrap__ZN9avoidance12LocalPlanner10runPlannerEv(LocalPlanner* l) {
  std::vector<std::string> cams;
  std::string frames;
  for (auto& c : l->original_cloud_vector_) {
    std::vector<std::string> pts;
    for (auto& p : c) pts.push_back(list({fx(p.x), fx(p.y), fx(p.z)}));
    cams.push_back(jlist(pts));
    frames += (frames.empty() ? "" : " ") + c.header.frame_id;
  }
  ev(J("plan").i("now", nowMs()).raw("cams", jlist(cams)).s("frames", frames).raw("fov", fovs(in.fov)).raw("wfov", fovs(in.wfov))
         .arr("goal", v3(l->getGoal())).arr("prev", v3(in.prev)).arr("pos", v3(in.pos)).arr("vel", v3(in.vel)).f("yaw", yawOf(in.q), 100).b("armed", l->currently_armed_)
         .f("cp", l->px4_.param_cp_dist).f("cruise", l->px4_.param_mpc_xy_cruise).f("mission", l->mission_item_speed_));
  __real__ZN9avoidance12LocalPlanner10runPlannerEv(l);
}
static J& outp(J& j, const std::string& k, const avoidanceOutput& o) {
  std::vector<long> v = {(long)o.path_node_positions.size(), fx(o.cruise_velocity), ms(o.last_path_time)};
  for (auto& p : o.path_node_positions) for (long x : v3(p)) v.push_back(x);
  return j.arr(k, v);
}
void __real__ZN9avoidance17WaypointGenerator14setPlannerInfoERKNS_15avoidanceOutputE(WaypointGenerator*, const avoidanceOutput&);
void __wrap__ZN9avoidance17WaypointGenerator14setPlannerInfoERKNS_15avoidanceOutputE(WaypointGenerator* w, const avoidanceOutput& o) {
  __real__ZN9avoidance17WaypointGenerator14setPlannerInfoERKNS_15avoidanceOutputE(w, o);
  J j("info");
  j.i("now", nowMs());
  outp(j, "is", o);
  outp(j, "want", node->local_planner_->getAvoidanceOutput());
  ev(j);
}
typedef void Upd(WaypointGenerator*, const Eigen::Vector3f&, const Eigen::Quaternionf&, const Eigen::Vector3f&, const Eigen::Vector3f&, const Eigen::Vector3f&, bool, bool,
                 const NavigationState&, const bool, const bool, const Eigen::Vector3f&);
Upd __real__ZN9avoidance17WaypointGenerator11updateStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEERKNS1_10QuaternionIfLi0EEES5_S5_S5_bbRKNS_15NavigationStateEbbS5_;
void __wrap__ZN9avoidance17WaypointGenerator11updateStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEERKNS1_10QuaternionIfLi0EEES5_S5_S5_bbRKNS_15NavigationStateEbbS5_(
    WaypointGenerator* w, const Eigen::Vector3f& p, const Eigen::Quaternionf& q, const Eigen::Vector3f& g, const Eigen::Vector3f& pg, const Eigen::Vector3f& v, bool stay, bool air,
    const NavigationState& nav, const bool land, const bool tko, const Eigen::Vector3f& des) {
  ev(J("update").i("now", nowMs()).arr("pos", v3(p)).f("yaw", yawOf(q), 100).arr("goal", v3(g)).arr("prev", v3(pg)).arr("vel", v3(v)).b("stay", stay).b("air", air)
         .i("nav", (int)nav).b("land", land).b("tko", tko).arr("des", v3(des)));
  __real__ZN9avoidance17WaypointGenerator11updateStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEERKNS1_10QuaternionIfLi0EEES5_S5_S5_bbRKNS_15NavigationStateEbbS5_(w, p, q, g, pg, v, stay, air, nav, land, tko, des);
}
waypointResult __real__ZN9avoidance17WaypointGenerator12getWaypointsEv(WaypointGenerator*);
waypointResult __wrap__ZN9avoidance17WaypointGenerator12getWaypointsEv(WaypointGenerator* w) {
  waypointResult r = __real__ZN9avoidance17WaypointGenerator12getWaypointsEv(w);
  if (watching) ev(J("aim").arr("goto", v3(r.goto_position)).arr("adapted", v3(r.adapted_goto_position)).arr("smoothed", v3(r.smoothed_goto_position)).arr("vel", v3(r.linear_velocity_wp)).i("type", (int)r.waypoint_type));
  ev(J("wp").arr("pos", v3(r.position_wp)).f("yaw", yawOf(r.orientation_wp), 100).arr("vel", v3(r.linear_velocity_wp)).f("rate", r.angular_velocity_wp.z()));
  return r;
}
bool __real__ZN9avoidance9tf_buffer15TransformBuffer15insertTransformERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_N2tf16StampedTransformE(tf_buffer::TransformBuffer*, const std::string&, const std::string&, tf::StampedTransform);
bool __wrap__ZN9avoidance9tf_buffer15TransformBuffer15insertTransformERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_N2tf16StampedTransformE(tf_buffer::TransformBuffer* b, const std::string& s, const std::string& t, tf::StampedTransform x) {
  auto& last = inserted;
  if (last[{s, t}] != (int64_t)x.stamp_.toNSec())      // the same one again changes nothing
    ev(J("tfin").i("cam", s.size() == 4 ? s[3] - '0' : -1).s("to", t).i("s", ms(x.stamp_)));
  last[{s, t}] = x.stamp_.toNSec();
  return __real__ZN9avoidance9tf_buffer15TransformBuffer15insertTransformERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_N2tf16StampedTransformE(b, s, t, x);
}
}
// ------------------------------------------------------------------ inputs
// camera k looks to the heading 90k of the vehicle; its clouds span h by v degrees and carry their id
static sensor_msgs::PointCloud2 cloud(long cam, long id, long s, long h, long v) {
  pcl::PointCloud<pcl::PointXYZ> c;
  auto nan = pcl::PointXYZ(NAN, 1, 1);
  float y = 2 * tan(h * D2R / 2), z = 2 * tan(v * D2R / 2);
  if (h == 0) for (long n = v; n > 0; n--) c.push_back(nan);      // no valid point
  else {
  c.push_back(pcl::PointXYZ(2, y, 0)); c.push_back(nan); c.push_back(pcl::PointXYZ(2, -y, 0)); c.push_back(pcl::PointXYZ(2, 0, z));
  c.push_back(pcl::PointXYZ(2, 0, -z)); c.push_back(nan); c.push_back(pcl::PointXYZ(2 + id / 100.f, 0, 0)); c.push_back(nan);
  }
  c.is_dense = false;
  sensor_msgs::PointCloud2 m;
  pcl::toROSMsg(c, m);
  m.header.stamp = at(s); m.header.frame_id = "cam" + std::to_string(cam); m.is_dense = false;
  return m;
}
static Eigen::Vector3f vec(Args& a) {
  float v[3];
  for (int k = 0; k < 3; k++) { long x = a.i(); v[k] = x == NANV ? NAN : x / 1000.f; }
  return Eigen::Vector3f(v[0], v[1], v[2]);
}
static void param(const std::string& name, double v) {
  mavros_msgs::Param p;
  p.param_id = name; p.value.real = v;
  rosstub::inject("mavros/param/param_value", p);
}
static void settle() {
  for (int expired = 0;; expired++) {
    for (int idle = 0, n = 0; idle < 70 && n < 5000; n++) {
      long before = events;
      sched::round();
      idle = events == before ? idle + 1 : 0;
    }
    if (!D || D->at == sched::Done || expired > 20) return;
    for (auto* t : sched::threads()) sched::expire(t);       // shutting down may take as long as the waits are limited to
  }
}
static void quietM() {
  for (int n = 0; M && M->at != sched::Done && M->at != sched::Poll && n < 100000; n++)
    if (!sched::step(M) || M->failed) sched::round();
}
static void fresh() {
  sched::enabled = false;
  sched::forget();
  node = nullptr; M = S = D = nullptr; ending = false; ticking = false; watching = false; queued.clear(); order.clear(); busy.clear(); inserted.clear();
  in = In();
  rosstub::reg().subs.clear(); rosstub::reg().timers.clear(); rosstub::reg().params.clear();
  rosstub::tfStore().clear();
  dynamic_reconfigure::Server<LocalPlannerNodeConfig>::all().clear();
  rosstub::setNow(T0);
}
int main(int argc, char** argv) {
  auto& r = rosstub::reg();
  rosstub::sleepHook() = [](int64_t ns) { if (sched::self) sched::yield(sched::Sleep, nullptr, ns); };
  r.onCallAvailable = callAvailable;
  r.onSpinnerStop = [] {
    if (sched::self) while (M && M->at != sched::Done) sched::yield(sched::Join, M);
  };
  r.onPublish = [](const std::string& t, std::type_index ty, const boost::shared_ptr<const void>& m) {
    if (watching) {
      bool one = ty == std::type_index(typeid(visualization_msgs::Marker)), many = ty == std::type_index(typeid(visualization_msgs::MarkerArray));
      if (one || (many && static_cast<const visualization_msgs::MarkerArray*>(m.get())->markers.size() == 1)) {
        auto& k = one ? *static_cast<const visualization_msgs::Marker*>(m.get()) : static_cast<const visualization_msgs::MarkerArray*>(m.get())->markers[0];
        std::vector<std::string> pts;
        for (auto& q : k.points) pts.push_back(list({fx(q.x), fx(q.y), fx(q.z)}));
        ev(J("shown").s("t", t).i("id", k.id).v3("p", k.pose.position.x, k.pose.position.y, k.pose.position.z).raw("pts", t == "path_actual" || t == "path_waypoint" || t == "path_adapted_waypoint" || t == "current_setpoint" ? jlist(pts) : "[]")
               .arr("c", {fx(k.color.r, 100), fx(k.color.g, 100), fx(k.color.b, 100)}));
      } else ev(J("shown").s("t", t).i("id", 0).v3("p", 0, 0, 0).raw("pts", "[]").arr("c", {0, 0, 0}));
    }
    if (t == "mavros/setpoint_position/local") {
      auto& p = static_cast<const geometry_msgs::PoseStamped*>(m.get())->pose;
      ev(J("setpoint").v3("pos", p.position.x, p.position.y, p.position.z).f("yaw", yawOf(Eigen::Quaternionf(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z)), 100));
    } else if (t == "mavros/trajectory/generated") {
      auto& p = *static_cast<const mavros_msgs::Trajectory*>(m.get());
      auto& q = p.point_1;
      std::vector<long> valid;
      for (auto x : p.point_valid) valid.push_back(x);
      ev(J("trajectory").i("stamp", ms(p.header.stamp)).i("type", p.type).v3("pos", q.position.x, q.position.y, q.position.z).v3("vel", q.velocity.x, q.velocity.y, q.velocity.z)
             .f("yaw", q.yaw / D2R, 100).f("rate", q.yaw_rate).arr("valid", valid));
    } else if (t == "mavros/obstacle/send") {
      auto& s = *static_cast<const sensor_msgs::LaserScan*>(m.get());
      ev(J("scan").i("stamp", ms(s.header.stamp)).i("n", s.ranges.size()).f("inc", s.angle_increment / D2R, 100));
    } else if (t == "mavros/companion_process/status") {
      auto& s = *static_cast<const mavros_msgs::CompanionProcessStatus*>(m.get());
      ev(J("status").i("state", s.state).i("component", s.component));
    }
  };
  return run(argc, argv, fresh, [](const std::string& op, Args& a) {
    if (ending && op != "adv" && op != "settle" && op != "m" && op != "d" && op != "w" && op != "t") return;
    if (op == "create") {            // create cams accept goal3 tterm
      ncams = a.i();
      bool accept = a.i();
      Eigen::Vector3f g = vec(a);
      long tt = a.i();
      ros::NodeHandle nh("~");
      std::vector<std::string> topics;
      for (int k = 0; k < ncams; k++) topics.push_back("/cam" + std::to_string(k));
      nh.setParam("lpn/pointcloud_topics", topics);
      nh.setParam("goal_x_param", (double)g.x()); nh.setParam("goal_y_param", (double)g.y()); nh.setParam("goal_z_param", (double)g.z());
      nh.setParam("accept_goal_input_topic", accept);
      sched::enabled = true;
      node = new LocalPlannerNodelet();
      node->init("lpn");
      for (auto& p : std::map<std::string, double>{{"MPC_ACC_DOWN_MAX", 10}, {"MPC_ACC_HOR", 5}, {"MPC_ACC_UP_MAX", 10}, {"MPC_JERK_MIN", 8}, {"MPC_JERK_MAX", 20},
               {"MPC_LAND_SPEED", 0.7}, {"MPC_TKO_SPEED", 1.5}, {"MPC_XY_CRUISE", 3}, {"MPC_Z_VEL_MAX_DN", 1}, {"MPC_Z_VEL_MAX_UP", 3}, {"CP_DIST", 4}, {"NAV_ACC_RAD", 2}, {"MPC_YAWRAUTO_MAX", 45}})
        param(p.first, p.second);
      auto c = LocalPlannerNodeConfig();
      c.children_per_node_ = 2; c.n_expanded_nodes_ = 2; c.goal_z_param = 3.5; c.timeout_termination_ = tt / 1000.0;
      rosstub::reconfigure<LocalPlannerNodeConfig>(c, 1);
      ev(J("create").i("cams", ncams).b("accept", accept).arr("goal", v3(g)).i("tterm", tt));
    } else if (op == "watch") {
      watching = true;
      ev(J("watch"));
    } else if (op == "adv") {
      quietM();
      rosstub::advance(a.i() * 1000000LL);
      ev(J("adv").i("now", nowMs()));
    } else if (op == "tf") {         // tf cam s: both transforms of the camera
      long k = a.i(), s = a.i();
      std::string f = "cam" + std::to_string(k);
      tf::Quaternion q(0, 0, sin(45 * k * D2R), cos(45 * k * D2R));
      rosstub::tfStore().set("local_origin", f, tf::StampedTransform(tf::Transform(q, tf::Vector3(s / 1000.0, 10.0 * (k + 1), 1)), at(s), "local_origin", f));
      rosstub::tfStore().set("fcu", f, tf::StampedTransform(tf::Transform(q, tf::Vector3(0, 0, 0)), at(s), "fcu", f));
      if (k < ncams) ev(J("tfset").i("cam", k).i("s", s));
    } else if (op == "cloud") {      // cloud cam id stamp h v
      long k = a.i(), id = a.i(), s = a.i(), h = a.i(), v = a.i();
      enqueue("cam" + std::to_string(k), [=] {
        ev(J("cloud").i("cam", k).i("id", id).i("s", s).i("h", h).i("v", h ? v : 0));
        rosstub::inject("/cam" + std::to_string(k), cloud(k, id, s, h, v));
        ev(J("cloudEnd").i("cam", k));
      });
    } else if (op == "pose") {
      Eigen::Vector3f p = vec(a);
      double yaw = a.i() / 100.0;
      enqueue("pose", [=] {
        geometry_msgs::PoseStamped m;
        m.pose.position.x = p.x(); m.pose.position.y = p.y(); m.pose.position.z = p.z();
        m.pose.orientation.z = sin(yaw * D2R / 2); m.pose.orientation.w = cos(yaw * D2R / 2);
        ev(J("pose").arr("p", v3(p)).f("yaw", yaw, 100));
        rosstub::inject("mavros/local_position/pose", m);
      });
    } else if (op == "vel") {
      Eigen::Vector3f p = vec(a);
      enqueue("vel", [=] {
        geometry_msgs::TwistStamped m;
        m.twist.linear.x = p.x(); m.twist.linear.y = p.y(); m.twist.linear.z = p.z();
        ev(J("vel").arr("v", v3(p)));
        rosstub::inject("mavros/local_position/velocity_local", m);
      });
    } else if (op == "state") {      // state mode armed
      std::string mode = a.s();
      bool armed = a.i();
      enqueue("state", [=] {
        mavros_msgs::State m;
        m.mode = mode == "-" ? "" : mode; m.armed = armed;
        ev(J("state").s("mode", m.mode).b("armed", armed));
        rosstub::inject("mavros/state", m);
      });
    } else if (op == "click") {
      Eigen::Vector3f p = vec(a);
      enqueue("click", [=] {
        geometry_msgs::PoseStamped m;
        m.pose.position.x = p.x(); m.pose.position.y = p.y(); m.pose.position.z = p.z(); m.pose.orientation.w = 1;
        ev(J("click").arr("g", v3(p)).i("z", fx(node->local_planner_->getGoal().z())));
        rosstub::inject("move_base_simple/goal", m);
      });
    } else if (op == "marker") {     // marker n goal
      long n = a.i();
      Eigen::Vector3f p = vec(a);
      enqueue("marker", [=] {
        visualization_msgs::MarkerArray m;
        m.markers.resize(n);
        for (long k = 0; k < n; k++) { m.markers[k].pose.position.x = p.x() + 10 * k; m.markers[k].pose.position.y = p.y(); m.markers[k].pose.position.z = p.z(); }
        ev(J("marker").i("n", n).arr("g", v3(p)));
        rosstub::inject("input/goal_position", m);
      });
    } else if (op == "fcu") {        // fcu valid1 valid2 p1 v1 cmd1 p2 cmd2
      bool a1 = a.i(), a2 = a.i();
      Eigen::Vector3f p1 = vec(a), v1 = vec(a);
      long c1 = a.i();
      Eigen::Vector3f p2 = vec(a);
      long c2 = a.i();
      enqueue("fcu", [=] {
        mavros_msgs::Trajectory m;
        m.point_valid = {a1, a2, false, false, false};
        m.command = {(uint16_t)c1, (uint16_t)c2, 0, 0, 0};
        m.point_1.position.x = p1.x(); m.point_1.position.y = p1.y(); m.point_1.position.z = p1.z();
        m.point_1.velocity.x = v1.x(); m.point_1.velocity.y = v1.y(); m.point_1.velocity.z = v1.z();
        m.point_2.position.x = p2.x(); m.point_2.position.y = p2.y(); m.point_2.position.z = p2.z();
        ev(J("fcu").b("a1", a1).b("a2", a2).arr("p1", v3(p1)).arr("v1", v3(v1)).i("c1", c1).arr("p2", v3(p2)).i("c2", c2));
        rosstub::inject("mavros/trajectory/desired", m);
      });
    } else if (op == "param") {      // param CP_DIST|MPC_XY_CRUISE milli
      std::string n = a.s();
      long v = a.i();
      enqueue("param", [=] {
        double x = v == NANV ? NAN : v / 1000.0;
        ev(J("param").s("id", n).i("v", v));
        param(n, x);
        ev(J("paramEnd"));
      });
    } else if (op == "mission") {
      long v = a.i();
      enqueue("mission", [=] {
        mavros_msgs::WaypointList m;
        m.waypoints.resize(2);
        m.waypoints[0].command = 178; m.waypoints[0].param1 = 1; m.waypoints[0].param2 = v / 1000.f;
        m.waypoints[1].command = 16; m.waypoints[1].is_current = true;
        ev(J("mission").i("v", v));
        rosstub::inject("mavros/mission/waypoints", m);
      });
    } else if (op == "reconf") {     // reconf goal_z tterm
      long z = a.i(), tt = a.i();
      auto c = LocalPlannerNodeConfig();
      c.children_per_node_ = 2; c.n_expanded_nodes_ = 2; c.goal_z_param = z / 1000.0; c.timeout_termination_ = tt / 1000.0;
      quietM();
      if (ticking) return;           // it would wait for the planner, which may wait for the position
      rosstub::reconfigure<LocalPlannerNodeConfig>(c, 1);
      ev(J("reconf").i("z", z).i("tterm", tt));
    } else if (op == "beat") {
      quietM();
      rosstub::fireByPeriod(0.2);
    } else if (op == "tick") {
      if (M && M->at != sched::Done) return;
      ev(J("tick").i("now", nowMs()));
      ticking = true;
      M = sched::spawn("timer", [] {
        int n = rosstub::fireByPeriod(0.1);
        ev(J("done"));
        ticking = false;
      });
    } else if (op == "spin") {       // somebody else delivers the waiting messages
      if (S && S->at != sched::Done) return;
      S = sched::spawn("spinner", callAvailable);
    } else if (op == "m") {
      for (long n = a.i(); n > 0 && M; n--) sched::step(M);
    } else if (op == "s") {
      for (long n = a.i(); n > 0 && S; n--) sched::step(S);
    } else if (op == "w") {
      for (long n = a.i(); n > 0; n--) for (auto* t : std::vector<sched::T*>(sched::threads())) if (t != M && t != S && t != D) sched::step(t);
    } else if (op == "t") {          // t k n: n steps of the k-th thread of the node
      long k = a.i(), n = a.i();
      std::vector<sched::T*> own;
      for (auto* t : sched::threads()) if (t->name[0] == 't' && t != M) own.push_back(t);
      for (; n > 0 && !own.empty(); n--) sched::step(own[k % own.size()]);
    } else if (op == "destroy") {
      while (S && S->at != sched::Done) sched::round();
      queued.clear(); order.clear();
      ending = true;
      ev(J("destroy"));
      D = sched::spawn("destroy", [] { delete node; ev(J("destroyed")); });
    } else if (op == "d") {
      for (long n = a.i(); n > 0 && D; n--) sched::step(D);
    } else if (op == "settle") {
      settle();
      ev(J("settled").b("waiting", ticking));
    }
  });
}
