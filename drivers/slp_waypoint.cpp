// Drives the real landing waypoint node through its topics, its parameter interface and its loop timer.
// Messages are queued and delivered, batch by batch, when the node asks for available callbacks.
#include "drv.h"
#include <deque>
#include <safe_landing_planner/waypoint_generator_node.hpp>
using namespace drv;
using namespace avoidance;
static std::unique_ptr<WaypointGeneratorNode> node;
static std::vector<mavros_msgs::Trajectory> sps;
static visualization_msgs::Marker goalM;
static visualization_msgs::MarkerArray shown;
static bool watching = false;
typedef std::deque<std::function<void()>> Batch;
static std::deque<Batch> queue;
static double un(long v) { return v == NANV ? NAN : v == INFV ? INFINITY : v == -INFV ? -INFINITY : v / 1000.0; }
template <class P> static bool nan3(const P& p) { return std::isnan(p.x) && std::isnan(p.y) && std::isnan(p.z); }
static bool unused(const mavros_msgs::PositionTarget& p) {
  return nan3(p.position) && nan3(p.velocity) && nan3(p.acceleration_or_force) && std::isnan(p.yaw) && std::isnan(p.yaw_rate);
}
static std::string jsp(const mavros_msgs::Trajectory& t) {
  auto& p = t.point_1;
  std::string v = "[";
  for (int k = 0; k < 5; k++) v += std::string(k ? "," : "") + (t.point_valid[k] ? "true" : "false");
  bool hz = true;
  for (int k = 0; k < 5; k++) hz = hz && std::isnan(t.time_horizon[k]);
  bool rest = unused(t.point_2) && unused(t.point_3) && unused(t.point_4) && unused(t.point_5);
  return J().v3("pos", p.position.x, p.position.y, p.position.z).v3("vel", p.velocity.x, p.velocity.y, p.velocity.z)
      .f("yaw", p.yaw, 1e4).f("yr", p.yaw_rate, 1e4).raw("valid", v + "]")
      .arr("form", {t.type, t.header.frame_id == "local_origin", nan3(p.acceleration_or_force), rest, hz}).str();
}
static void fresh() {
  node.reset();
  watching = false;
  sps.clear(); queue.clear();
  queue.emplace_back();
  goalM = visualization_msgs::Marker();
  goalM.pose.position.x = goalM.pose.position.y = 0;
  ros::NodeHandle nh("~");
  node.reset(new WaypointGeneratorNode(nh));
  node->startNode();
}
static void step(const std::string& op, Args& a) {
  Batch& b = queue.back();
  if (op == "watch") { watching = true; return; }
  if (op == "batch") { queue.emplace_back(); return; }
  if (op == "cfg") {
    long slc = a.i(), beta = a.i(), thr = a.i(), lh = a.i(), vre = a.i(), sp = a.i();
    b.push_back([=] {
      safe_landing_planner::WaypointGeneratorNodeConfig c;
      c.smoothing_land_cell = slc; c.beta = beta / 100.0; c.can_land_thr = thr / 1e6; c.loiter_height = lh / 1000.0;
      c.vertical_range_error = vre / 1000.0; c.spiral_width = sp / 1000.0;
      rosstub::reconfigure(c, 1);
      out()(J("cfg").i("slc", slc).i("beta", beta).i("thr", thr).i("lheight", lh).i("vre", vre).i("spiral", sp));
    });
  } else if (op == "pose" || op == "near") {   // near: x y relative to the goal the node displays
    long x = a.i(), y = a.i(), z = a.i(), yaw = a.i(), roll = a.i();
    b.push_back([=] {
      geometry_msgs::PoseStamped p;
      double px = un(x), py = un(y);
      if (op == "near") { if (std::isfinite(goalM.pose.position.x)) px += std::round(goalM.pose.position.x * 1000) / 1000; if (std::isfinite(goalM.pose.position.y)) py += std::round(goalM.pose.position.y * 1000) / 1000; }
      p.pose.position.x = px; p.pose.position.y = py; p.pose.position.z = un(z);
      double h = yaw * M_PI / 36000.0, r = roll * M_PI / 36000.0;      // half angles; yaw * roll
      p.pose.orientation.w = cos(h) * cos(r); p.pose.orientation.x = cos(h) * sin(r);
      p.pose.orientation.y = sin(h) * sin(r); p.pose.orientation.z = sin(h) * cos(r);
      rosstub::inject<geometry_msgs::PoseStamped>("mavros/local_position/pose", p);
      out()(J("pose").v3("p", px, py, un(z)).f("yaw", 2 * h, 1e4));
    });
  } else if (op == "traj") {   // p1 v1 ok1 p2 yaw2 yr2 ok2 cmd0 cmd1
    std::vector<long> v;
    while (a.more()) v.push_back(a.i());
    b.push_back([=] {
      mavros_msgs::Trajectory t;
      t.point_1.position.x = un(v[0]); t.point_1.position.y = un(v[1]); t.point_1.position.z = un(v[2]);
      t.point_1.velocity.x = un(v[3]); t.point_1.velocity.y = un(v[4]); t.point_1.velocity.z = un(v[5]);
      t.point_valid[0] = v[6];
      t.point_2.position.x = un(v[7]); t.point_2.position.y = un(v[8]); t.point_2.position.z = un(v[9]);
      t.point_1.yaw = 0.111; t.point_1.yaw_rate = 0.222;
      t.point_2.velocity.x = 0.9; t.point_2.velocity.y = 0.8; t.point_2.velocity.z = 0.7;
      t.point_2.yaw = un(v[10]); t.point_2.yaw_rate = un(v[11]);
      t.point_valid[1] = v[12];
      t.command[0] = v[13]; t.command[1] = v[14]; t.command[2] = 21;
      rosstub::inject<mavros_msgs::Trajectory>("mavros/trajectory/desired", t);
      auto f = [](long w) { return std::abs(w) >= 2000000001 ? w : 10 * w; };
      out()(J("traj").arr("p1", {v[0], v[1], v[2]}).arr("v1", {v[3], v[4], v[5]}).b("ok1", v[6]).arr("p2", {v[7], v[8], v[9]})
                .i("yaw2", f(v[10])).i("yr2", f(v[11])).b("ok2", v[12]).i("cmd", v[14]));
    });
  } else if (op == "mode") {
    std::string m = a.s(); long armed = a.i();
    b.push_back([=] {
      mavros_msgs::State s; s.mode = m; s.armed = armed;
      rosstub::inject<mavros_msgs::State>("mavros/state", s);
      out()(J("mode").s("mode", m).b("armed", armed));
    });
  } else if (op == "grid") {    // seq size cell n bits mean...   (mean: n*n values, or one)
    long seq = a.i(), size = a.i(), cell = a.i(), n = a.i();
    std::string bits = a.s();
    std::vector<long> me, la;
    while (a.more()) me.push_back(a.i());
    while ((long)me.size() < n * n) me.push_back(me.back());
    for (long k = 0; k < n * n; k++) la.push_back(bits[k % bits.size()] - '0');
    b.push_back([=] {
      safe_landing_planner::SLPGridMsg m;
      m.header.seq = seq; m.grid_size = size / 1000.0; m.cell_size = cell / 1000.0;
      m.mean.layout.dim.resize(2);
      m.mean.layout.dim[0].size = m.mean.layout.dim[1].size = n;
      m.mean.layout.dim[0].stride = n * n; m.mean.layout.dim[1].stride = n;
      m.land.layout = m.mean.layout; m.std_dev.layout = m.mean.layout; m.counter.layout = m.mean.layout;
      for (long k = 0; k < n * n; k++) { m.mean.data.push_back(me[k] / 1000.0); m.land.data.push_back(la[k]); m.std_dev.data.push_back(0.5); m.counter.data.push_back(3); }
      m.curr_pos_index.x = n / 2; m.curr_pos_index.y = n / 2;
      rosstub::inject<safe_landing_planner::SLPGridMsg>("grid_slp", m);
      out()(J("grid").i("seq", seq).i("n", n).i("cell", cell).arr("land", la).arr("mean", me));
    });
  } else if (op == "tick") {
    sps.clear();
    shown.markers.clear();
    rosstub::fireByPeriod(0.1);
    std::vector<std::string> o;
    for (auto& t : sps) o.push_back(jsp(t));
    std::vector<long> w;
    for (auto& m : shown.markers) w.push_back(m.color.g > 0.5 && m.color.r < 0.5 ? 1 : 0);
    J j("tick");
    j.raw("sp", jlist(o)).v3("goal", goalM.pose.position.x, goalM.pose.position.y, goalM.pose.position.z).arr("shown", w);
    if (watching) {
      std::vector<std::string> at;
      for (auto& m : shown.markers) at.push_back(J().v3("p", m.pose.position.x, m.pose.position.y, m.pose.position.z).v3("s", m.scale.x, m.scale.y, m.scale.z).i("id", m.id).b("plain", m.type == visualization_msgs::Marker::CUBE && m.action == visualization_msgs::Marker::ADD && m.header.frame_id == "local_origin" && m.color.a > 0).str());
      j.raw("area", jlist(at)).i("gid", goalM.id).b("gplain", goalM.type == visualization_msgs::Marker::SPHERE && goalM.header.frame_id == "local_origin" && goalM.color.a > 0 && goalM.scale.x > 0);
    }
    out()(j);
    if (queue.empty()) queue.emplace_back();
  }
}
int main(int argc, char** argv) {
  rosstub::reg().onPublish = [](const std::string& topic, std::type_index, const boost::shared_ptr<const void>& m) {
    if (topic == "mavros/trajectory/generated") sps.push_back(*static_cast<const mavros_msgs::Trajectory*>(m.get()));
    if (topic == "goal_position") goalM = *static_cast<const visualization_msgs::Marker*>(m.get());
    if (topic == "land_hysteresis") shown = *static_cast<const visualization_msgs::MarkerArray*>(m.get());
  };
  rosstub::reg().onCallAvailable = [] {
    static int idle = 0;
    if (queue.empty()) { if (++idle > 1000) { fprintf(stderr, "the loop waits although a grid was delivered\n"); _exit(4); } return; }
    idle = 0;
    Batch b = queue.front();
    queue.pop_front();
    out()(J("wait").i("pubs", sps.size()));
    for (auto& f : b) f();
  };
  return run(argc, argv, fresh, step);
}
