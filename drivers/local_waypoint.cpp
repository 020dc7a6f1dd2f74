// Drives the waypoint generator of the local planner and the path follower.
#include "drv.h"
#include <local_planner/planner_functions.h>
#include <local_planner/waypoint_generator.h>
using namespace drv;
using namespace avoidance;
static std::unique_ptr<WaypointGenerator> w;
static Eigen::Vector3f last;
static int64_t now_ns, prev_ns, path_ns;
static bool first;
static avoidanceOutput info;
static double un(long v) { return v == NANV ? NAN : v / 1000.0; }
static Eigen::Vector3f vec(Args& a) { float x = un(a.i()), y = un(a.i()), z = un(a.i()); return Eigen::Vector3f(x, y, z); }
static void fresh() {
  w.reset(new WaypointGenerator());
  now_ns = 1000LL * 1000000000LL;
  rosstub::setNow(now_ns);
  last.setZero();
  first = true;
  info.cruise_velocity = NAN; info.path_node_positions.clear(); info.last_path_time = ros::Time(0);
  path_ns = 0;
  w->setPlannerInfo(info);
}
static ros::Time at(int64_t ns) { ros::Time t; t.fromNSec(ns); return t; }
static void step(const std::string& op, Args& a) {
  if (op == "smooth") {
    long xy = a.i(), z = a.i();
    w->setSmoothingSpeed(xy / 100.0f, z / 100.0f);
    out()(J(op).i("xy", xy).i("z", z));
  } else if (op == "fov") {
    long i = a.i(), y = a.i(), p = a.i(), h = a.i(), v = a.i();
    w->setFOV(i - 1, FOV(y / 100.0f, p / 100.0f, h / 100.0f, v / 100.0f));
    out()(J(op).i("i", i).i("y", y).i("p", p).i("h", h).i("v", v));
  } else if (op == "info") {      // cruise age n points relative to the last setpoint (rel 1) or absolute
    long cruise = a.i(), age = a.i(), rel = a.i(), n = a.i();
    info.cruise_velocity = un(cruise);
    path_ns = now_ns - age * 1000000LL;
    info.last_path_time = at(path_ns);
    info.path_node_positions.clear();
    std::vector<std::string> o;
    for (int k = 0; k < n; k++) {
      Eigen::Vector3f q = vec(a);
      if (rel) for (int d = 0; d < 3; d++) q[d] = std::round((q[d] + last[d]) * 1000) / 1000.0;
      info.path_node_positions.push_back(q);
      o.push_back("[" + std::to_string(fx(q.x())) + "," + std::to_string(fx(q.y())) + "," + std::to_string(fx(q.z())) + "]");
    }
    w->setPlannerInfo(info);
    out()(J(op).i("cruise", cruise).raw("pts", jlist(o)));
  } else if (op == "cyc") {       // dt rel pos yaw pitch goal vel loiter air nav land takeoff desired
    long dt = a.i(), rel = a.i();
    Eigen::Vector3f pos = vec(a);
    if (rel) for (int d = 0; d < 3; d++) pos[d] = std::round((pos[d] + last[d]) * 1000) / 1000.0;
    long yaw = a.i(), pitch = a.i();
    Eigen::Vector3f goal = vec(a), vel = vec(a);
    bool loiter = a.i(), air = a.i();
    std::string nav = a.s();
    bool land = a.i(), takeoff = a.i();
    Eigen::Vector3f des = vec(a);
    static const std::map<std::string, NavigationState> navs = {{"mission", NavigationState::mission}, {"auto_takeoff", NavigationState::auto_takeoff},
        {"auto_land", NavigationState::auto_land}, {"auto_rtl", NavigationState::auto_rtl}, {"auto_rtgs", NavigationState::auto_rtgs},
        {"offboard", NavigationState::offboard}, {"auto_loiter", NavigationState::auto_loiter}, {"none", NavigationState::none}};
    now_ns += dt * 1000000LL;
    rosstub::setNow(now_ns);
    double hy = yaw * M_PI / 36000.0, hp = pitch * M_PI / 36000.0;
    Eigen::Quaternionf q = Eigen::Quaternionf(cos(hy), 0, 0, sin(hy)) * Eigen::Quaternionf(cos(hp), 0, sin(hp), 0);
    w->updateState(pos, q, goal, goal, vel, loiter, air, navs.at(nav), land, takeoff, des);
    waypointResult r = w->getWaypoints();
    long el = first ? 0 : (now_ns - prev_ns) / 100000;
    first = false;
    prev_ns = now_ns;
    auto& o = r.orientation_wp;
    double ysp = std::atan2(2.0 * (o.w() * o.z() + o.x() * o.y()), 1 - 2.0 * (o.y() * o.y() + o.z() * o.z()));
    static const char* names[] = {"TRY_PATH", "ALTITUDE_CHANGE", "LOITER", "DIRECT"};
    J j(op);
    j.i("dt", el).i("age", (now_ns - path_ns) / 1000000).v3("pos", pos.x(), pos.y(), pos.z()).i("yaw", yaw).i("pitch", pitch)
        .v3("goal", goal.x(), goal.y(), goal.z()).v3("vel", vel.x(), vel.y(), vel.z()).b("loiter", loiter).b("air", air).s("nav", nav)
        .b("land", land).b("takeoff", takeoff).v3("desired", des.x(), des.y(), des.z());
    j.s("st", names[(int)r.waypoint_type]).vec("to", r.goto_position, 1e4).vec("ad", r.adapted_goto_position, 1e4)
        .vec("sm", r.smoothed_goto_position, 1e4).vec("wp", r.position_wp, 1e4).vec("lin", r.linear_velocity_wp).f("ysp", ysp, 1e5);
    out()(j);
    last = r.position_wp.allFinite() && r.position_wp.norm() < 60.f ? r.position_wp : pos;
  } else if (op == "path") {      // vel age n points
    long vel = a.i(), age = a.i(), n = a.i();
    std::vector<Eigen::Vector3f> p;
    std::vector<std::string> o;
    for (int k = 0; k < n; k++) {
      p.push_back(vec(a));
      o.push_back("[" + std::to_string(fx(p[k].x())) + "," + std::to_string(fx(p[k].y())) + "," + std::to_string(fx(p[k].z())) + "]");
    }
    Eigen::Vector3f sp(7.f, 7.f, 7.f);
    bool ok = getSetpointFromPath(p, at(now_ns - age * 1000000LL), un(vel), at(now_ns), sp);
    out()(J(op).i("vel", vel).i("age", age).raw("pts", jlist(o)).b("ok", ok).vec("sp", sp, 1e4));
  }
}
int main(int argc, char** argv) { return run(argc, argv, fresh, step); }
