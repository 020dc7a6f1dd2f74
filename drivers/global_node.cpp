// Drives the real global planner node: goals, poses, maps, clouds, reconfigurations and its two timers.
// Cells are index triples; positions in 1/8 m; times in ms.
#include "lockstep.h"
#include "drv.h"
#include <octomap_msgs/conversions.h>
#include <global_planner/global_planner_node.h>
using namespace drv;
using namespace global_planner;
static const int64_t T0 = 1000LL * 1000000000LL;
static long nowMs() { return (long)((rosstub::clock() - T0) / 1000000LL); }
static GlobalPlannerNode* node = nullptr;
static std::function<void()> known;      // the camera's transform
static const float KIND[6] = {0.f, -2.0f, -0.4f, 0.0f, 0.85f, 3.5f};
static std::vector<std::string> pubs;
static GlobalPlannerNodeConfig conf;
static std::vector<long> c3(const Cell& c) { return {c.xIndex(), c.yIndex(), c.zIndex()}; }
static std::string tri(const Cell& c) { return "[" + std::to_string(sat(c.xIndex())) + "," + std::to_string(sat(c.yIndex())) + "," + std::to_string(sat(c.zIndex())) + "]"; }
static std::string list(const std::vector<Cell>& v) { std::vector<std::string> o; for (auto& c : v) o.push_back(tri(c)); return jlist(o); }
static std::string p8(const geometry_msgs::Point& p, double s = 8) { return "[" + std::to_string(fx(p.x, s)) + "," + std::to_string(fx(p.y, s)) + "," + std::to_string(fx(p.z, s)) + "]"; }
static long risk8(double r) { return std::isnan(r) ? NANV : (r >= 1.2 ? 120000000L : fx(r, 1e8)); }
static std::string goalJ(const GoalCell& g) { J j; j.raw("c", tri(g)).f("r", g.radius_).b("temp", g.is_temporary_); return j.str(); }
static std::string poses(const std::vector<geometry_msgs::PoseStamped>& v, bool yaw, double s = 8) {
  std::vector<std::string> o;
  for (auto& p : v) o.push_back(yaw ? std::to_string(fx(tf::getYaw(p.pose.orientation), 1e4)) : p8(p.pose.position, s));
  return jlist(o);
}
// what the node is about to do, after every event
static J& state(J& j) {
  auto& g = node->global_planner_;
  std::vector<std::string> w;
  for (auto& x : node->waypoints_) w.push_back(goalJ(x));
  std::vector<Cell> occ(g.occupied_.begin(), g.occupied_.end());
  j.raw("occ", list(occ));
  j.i("now", nowMs()).raw("goal", goalJ(g.goal_pos_)).raw("way", jlist(w)).b("blocked", g.goal_is_blocked_).raw("planned", list(g.curr_path_))
      .raw("cur", p8(node->current_goal_.pose.position)).f("curyaw", tf::getYaw(node->current_goal_.pose.orientation), 1e4).raw("rest", poses(node->path_, false)).raw("pubs", jlist(pubs));
  pubs.clear();
  return j;
}
static void ev(J j) { out()(state(j)); }
static void fresh() {
  sched::enabled = false;
  sched::forget();
  node = nullptr;
  rosstub::reg().subs.clear(); rosstub::reg().timers.clear();
  rosstub::tfStore().clear();
  known = nullptr;
  dynamic_reconfigure::Server<GlobalPlannerNodeConfig>::all().clear();
  CELL_SCALE = 1.0; SPEEDNODE_RADIUS = 5.0;
  pubs.clear();
  rosstub::setNow(T0);
}
static void onPublish(const std::string& t, const boost::shared_ptr<const void>& m) {
  auto pub = [&](const J& j) { pubs.push_back(j.str()); };
  if (t == "global_goal" || t == "global_temp_goal") {
    auto& p = *static_cast<const geometry_msgs::PointStamped*>(m.get());
    pub(J(t).raw("p", p8(p.point)).b("frame", p.header.frame_id == "world"));
  } else if (t == "global_temp_path") {
    auto& p = *static_cast<const nav_msgs::Path*>(m.get());
    pub(J(t).raw("p", poses(p.poses, false)).raw("yaw", poses(p.poses, true)).b("frame", p.header.frame_id == "world"));
  } else if (t == "smooth_path") {
    auto& p = *static_cast<const nav_msgs::Path*>(m.get());
    pub(J(t).raw("p", poses(p.poses, false, 1e4)));
  } else if (t == "actual_path") {
    auto& p = *static_cast<const nav_msgs::Path*>(m.get());
    pub(J(t).i("n", p.poses.size()).raw("last", p.poses.empty() ? "[]" : p8(p.poses.back().pose.position)));
  } else if (t == "mavros/setpoint_position/local" || t == "current_setpoint") {
    auto& p = *static_cast<const geometry_msgs::PoseStamped*>(m.get());
    pub(J(t).raw("p", p8(p.pose.position, 1e4)).f("yaw", tf::getYaw(p.pose.orientation), 1e4));
  } else if (t == "mavros/trajectory/generated") {
    auto& p = *static_cast<const mavros_msgs::Trajectory*>(m.get());
    auto& q = p.point_1;
    bool novel = std::isnan(q.velocity.x) && std::isnan(q.velocity.y) && std::isnan(q.velocity.z);
    bool rest = true;
    for (int i = 1; i < 5; i++) rest = rest && !p.point_valid[i];
    pub(J(t).raw("p", p8(q.position, 1e4)).f("yaw", q.yaw, 1e4).b("valid", p.point_valid[0]).b("only", rest).b("novel", novel).i("type", p.type));
  } else if (t == "mavros/companion_process/status") {
    auto& s = *static_cast<const mavros_msgs::CompanionProcessStatus*>(m.get());
    pub(J(t).i("state", s.state).i("component", s.component));
  }
}
struct Alien : octomap::AbstractOcTree { double getResolution() const { return 0.25; } size_t memoryUsage() const { return 0; } size_t size() const { return 0; } std::string getTreeType() const { return "ColorOcTree"; } };

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  rosstub::reg().onPublish = [](const std::string& t, std::type_index, const boost::shared_ptr<const void>& m) { onPublish(t, m); };
  return run(argc, argv, fresh, [](const std::string& op, Args& a) {
    auto P = [&] { return node; };
    if (op == "create") {  // start position (1/8), robot radius (mm)
      ros::NodeHandle nh("~");
      long x = a.i(), y = a.i(), z = a.i(), rr = a.i();
      nh.setParam("start_pos_x", x / 8.0); nh.setParam("start_pos_y", y / 8.0); nh.setParam("start_pos_z", z / 8.0);
      nh.setParam("frame_id", std::string("world"));
      nh.setParam("camera_frame_id", std::string("cam"));
      nh.setParam("robot_radius", rr / 1000.0);
      nh.setParam("pointcloud_topics", std::vector<std::string>{"/cloud"});
      sched::enabled = true;
      conf = GlobalPlannerNodeConfig();
      node = new GlobalPlannerNode(nh, nh);
      ev(J("create").arr("start", {x, y, z}).i("rr", rr));
    } else if (op == "conf") {  // s alt minalt mr(1e-4) sm(1/10) rf flow(%) pen(1e-4) up down(1/10) sr(mm) kind over(min,max 1e-2) iters free yaw st(ms) riskh speedh  speedup thr(1/1000) dspeed mspeed(1/1000) calt cradius(1/8 m, mm) rounds margin(1/1000)
      J j("conf");
      long v;
      auto& c = conf;
      auto old = conf;
      j.i("s", v = a.i()); c.CELL_SCALE = v / 2.0;
      j.i("alt", v = a.i()); c.max_altitude_ = v;
      j.i("minalt", v = a.i()); c.min_altitude_ = v;
      v = a.i(); j.i("mr", v * 10000); c.max_cell_risk_ = v / 1e4;
      j.i("sm", v = a.i()); c.smooth_factor_ = v / 10.0;
      j.i("rf", v = a.i()); c.risk_factor_ = v;
      j.i("flow", v = a.i()); c.neighbor_risk_flow_ = v / 100.0;
      j.i("pen", v = a.i()); c.explore_penalty_ = v / 1e4;
      j.i("up", v = a.i()); c.up_cost_ = v / 10.0;
      j.i("down", v = a.i()); c.down_cost_ = v / 10.0;
      j.i("rr", std::lround(node->global_planner_.robot_radius_ * 1000));
      j.i("sr", v = a.i()); c.SPEEDNODE_RADIUS = v / 1e3;
      std::string k = a.s(); j.s("kind", k); c.default_node_type_ = k;
      j.i("omin", v = a.i()); c.min_overestimate_factor_ = v / 100.0;
      j.i("omax", v = a.i()); c.max_overestimate_factor_ = v / 100.0;
      j.i("iters", v = a.i()); c.max_iterations_ = v;
      j.b("free", v = a.i()); c.goal_must_be_free_ = v;
      j.b("yaw", v = a.i()); c.use_current_yaw_ = v;
      j.i("st", v = a.i()); c.search_time_ = v / 1e3;
      j.b("riskh", v = a.i()); c.use_risk_heuristics_ = v;
      j.b("speedh", v = a.i()); c.use_speedup_heuristics_ = v;
      j.b("speedup", v = a.i()); c.use_risk_based_speedup_ = v;
      j.i("thr", v = a.i()); c.risk_threshold_risk_based_speedup_ = v / 1e3;
      j.i("dspeed", v = a.i()); c.default_speed_ = v / 1e3;
      j.i("mspeed", v = a.i()); c.max_speed_ = v / 1e3;
      j.i("calt", v = a.i()); c.clicked_goal_alt_ = v / 8.0;
      j.i("crad", v = a.i()); c.clicked_goal_radius_ = v / 1e3;
      j.i("rounds", v = a.i()); c.simplify_iterations_ = v;
      j.i("margin", v = a.i()); c.simplify_margin_ = v / 1e3;
      uint32_t level = 0;
      if (old.CELL_SCALE != c.CELL_SCALE) level |= 2;
      if (old.SPEEDNODE_RADIUS != c.SPEEDNODE_RADIUS || old.default_node_type_ != c.default_node_type_) level |= 4;
      rosstub::reconfigure<GlobalPlannerNodeConfig>(c, level);
      auto& g = P()->global_planner_;
      J h;  // what has become of it
      h.i("s", std::lround(CELL_SCALE * 2)).i("alt", std::lround(g.max_altitude_)).i("minalt", std::lround(g.min_altitude_)).f("mr", g.max_cell_risk_, 1e8).f("sm", g.smooth_factor_, 10).f("rf", g.risk_factor_, 1)
          .f("flow", g.neighbor_risk_flow_, 100).f("pen", g.explore_penalty_, 1e4).f("up", g.up_cost_, 10).f("down", g.down_cost_, 10).f("rr", g.robot_radius_).f("sr", SPEEDNODE_RADIUS).s("kind", g.default_node_type_)
          .f("omin", g.min_overestimate_factor_, 100).f("omax", g.max_overestimate_factor_, 100).i("iters", g.max_iterations_).b("free", g.goal_must_be_free_).b("yaw", g.use_current_yaw_).f("st", g.search_time_)
          .b("riskh", g.use_risk_heuristics_).b("speedh", g.use_speedup_heuristics_).b("speedup", g.use_risk_based_speedup_).f("thr", g.risk_threshold_risk_based_speedup_).f("dspeed", g.default_speed_).f("mspeed", g.max_speed_)
          .f("calt", node->clicked_goal_alt_, 8).f("crad", node->clicked_goal_radius_).i("rounds", node->simplify_iterations_).f("margin", node->simplify_margin_);
      j.raw("has", h.str());
      ev(j);
    } else if (op == "adv") {
      rosstub::advance(a.i() * 1000000LL);
      ev(J("adv"));
    } else if (op == "map") {  // rh n (x y z kind)*
      int rh = a.i(), n = a.i();
      octomap_msgs::Octomap m;
      m.resolution = rh / 2.0;
      std::vector<std::string> o;
      while (n--) {
        int x = a.i(), y = a.i(), z = a.i(), k = a.i();
        octomap_msgs::put(m, x, y, z, KIND[k]);
        o.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + std::to_string(k) + "]");
      }
      rosstub::inject("octomap_full", m);
      ev(J("map").i("rh", rh).raw("vox", jlist(o)));
    } else if (op == "pose" || op == "reach") {  // 1/8 m, yaw 1/1000; reach: relative to the goal
      geometry_msgs::PoseStamped p;
      p.pose.position.x = a.i() / 8.0; p.pose.position.y = a.i() / 8.0; p.pose.position.z = a.i() / 8.0;
      if (op == "reach") {
        auto c = node->global_planner_.goal_pos_;
        p.pose.position.x += std::floor(c.xPos() * 8) / 8; p.pose.position.y += std::floor(c.yPos() * 8) / 8; p.pose.position.z += std::floor(c.zPos() * 8) / 8;
      }
      p.pose.orientation = tf::createQuaternionMsgFromYaw(a.i() / 1e3);
      p.header.frame_id = "local_origin";
      rosstub::inject("mavros/local_position/pose", p);
      ev(J("pose").raw("p", p8(p.pose.position)).f("yaw", tf::getYaw(p.pose.orientation), 1e4));
    } else if (op == "vel") {
      geometry_msgs::TwistStamped v;
      v.twist.linear.x = a.i() / 8.0; v.twist.linear.y = a.i() / 8.0; v.twist.linear.z = a.i() / 8.0;
      rosstub::inject("mavros/local_position/velocity", v);
      ev(J("vel").v3("p", v.twist.linear.x, v.twist.linear.y, v.twist.linear.z, 8));
    } else if (op == "click") {  // goal from rviz
      geometry_msgs::PoseStamped p;
      p.pose.position.x = a.i() / 8.0; p.pose.position.y = a.i() / 8.0; p.pose.position.z = a.i() / 8.0;
      rosstub::inject("move_base_simple/goal", p);
      ev(J("click").raw("p", p8(p.pose.position)));
    } else if (op == "point") {  // clicked point: printed only
      geometry_msgs::PointStamped p;
      p.point.x = a.i() / 8.0; p.point.y = a.i() / 8.0; p.point.z = a.i() / 8.0;
      rosstub::inject("clicked_point", p);
      ev(J("point").raw("p", p8(p.point)));
    } else if (op == "fcu") {  // valid1 valid2 position of point 2 (1/8), of point 1
      mavros_msgs::Trajectory t;
      bool v1 = a.i(), v2 = a.i();
      t.point_valid[0] = v1; t.point_valid[1] = v2;
      t.point_2.position.x = a.i() / 8.0; t.point_2.position.y = a.i() / 8.0; t.point_2.position.z = a.i() / 8.0;
      t.point_1.position.x = a.i() / 8.0; t.point_1.position.y = a.i() / 8.0; t.point_1.position.z = 2;
      rosstub::inject("mavros/trajectory/desired", t);
      ev(J("fcu").b("v1", v1).b("v2", v2).raw("p", p8(t.point_2.position)));
    } else if (op == "queue") {  // a goal behind the others
      Cell c(std::tuple<int, int, int>(0, 0, 0));
      int x = a.i(), y = a.i(), z = a.i(), r = a.i(); bool t = a.i();
      node->waypoints_.push_back(GoalCell(Cell(std::tuple<int, int, int>(x, y, z)), r / 1e3, t));
      ev(J("queue").raw("g", goalJ(node->waypoints_.back())));
    } else if (op == "tf") {  // shift (1/8 m)
      double x = a.i() / 8.0, y = a.i() / 8.0, z = a.i() / 8.0;
      // published again and again from now on
      known = [=] { rosstub::tfStore().set("world", "cam", tf::StampedTransform(tf::Transform(tf::Quaternion(0, 0, 0, 1), tf::Vector3(x, y, z)), ros::Time::now(), "world", "cam")); };
      ev(J("tf").v3("p", x, y, z, 8));
    } else if (op == "cloud") {  // n points (1/8 m)
      pcl::PointCloud<pcl::PointXYZ> c;
      std::vector<std::string> o;
      for (int n = a.i(), k = 0; k < n; k++) {
        double x = a.i() / 8.0, y = a.i() / 8.0, z = a.i() / 8.0;
        c.push_back(pcl::PointXYZ(x, y, z));
        geometry_msgs::Point p; p.x = x; p.y = y; p.z = z;
        o.push_back(p8(p));
        if (k % 2) c.push_back(pcl::PointXYZ(NAN, NAN, NAN));
      }
      c.is_dense = false;
      sensor_msgs::PointCloud2 m;
      pcl::toROSMsg(c, m);
      m.header.frame_id = "cam"; m.header.stamp = ros::Time::now();
      if (known) known();
      rosstub::inject("/cloud", m);
      ev(J("cloud").raw("pts", jlist(o)));
    } else if (op == "risk") {
      int x = a.i(), y = a.i(), z = a.i();
      Cell c(std::tuple<int, int, int>(x, y, z));
      ev(J("risk").arr("c", c3(c)).i("r", risk8(node->global_planner_.getRisk(c))));
    } else if (op == "cmd") {
      int n = rosstub::fireByPeriod(0.1);
      ev(J("cmd").i("n", n).f("speed", node->speed_, 1e4).i("state", (int)node->avoidance_node_.getSystemStatus()));
    } else if (op == "plan") {
      int n = rosstub::fireByPeriod(1.0);
      ev(J("plan").i("n", n).f("over", node->global_planner_.overestimate_factor_, 1e4));
    } else if (op == "status") {
      int n = rosstub::fireByPeriod(0.2);
      ev(J("status").i("n", n));
    }
  });
}
