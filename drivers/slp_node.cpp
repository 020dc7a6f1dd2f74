// Drives the real landing planner node: its clouds, transforms, poses and recorded grids, the planner
// timer (in a thread of its own, as the node's spinner does) and its cloud thread, under a schedule
// chosen by the script.
#include "lockstep.h"
#include "drv.h"
#include <safe_landing_planner/safe_landing_planner_node.hpp>
using namespace drv;
using namespace avoidance;

static const int64_t T0 = 1000LL * 1000000000LL;
static long nowMs() { return (long)((rosstub::clock() - T0) / 1000000LL); }
static ros::Time at(long ms, long ns = 0) { ros::Time t; t.fromNSec(T0 + ms * 1000000LL + ns); return t; }
static SafeLandingPlannerNode* node = nullptr;
static bool rosbag = false, ticking = false;
static bool watching = false;                                    // the displays are recorded, too
static long npts = 0;
static std::map<std::string, std::vector<visualization_msgs::Marker>> drawings;
static long events = 0;
static sched::T* M = nullptr;
static std::map<std::string, std::function<void()>> queued;      // one waiting message per topic, as configured
static std::vector<std::string> order;
static void ev(const J& j) { out()(j); events++; }
static void enqueue(const std::string& topic, std::function<void()> f) {
  if (!queued.count(topic)) order.push_back(topic);
  queued[topic] = f;
}
static void callAvailable() {
  if (!sched::self) return;
  sched::yield(sched::Poll);
  auto q = queued; auto o = order;
  queued.clear(); order.clear();
  for (auto& t : o) q[t]();
  out()(J("pass").i("now", nowMs()));
}
template <class V> static std::string ints(const V& v, double s) {
  std::string o = "[";
  for (size_t k = 0; k < v.size(); k++) o += (k ? "," : "") + std::to_string(fx(v[k], s));
  return o + "]";
}
template <class MT> static std::string rowMajor(const MT& m, double s, bool root = false) {
  std::vector<float> v;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(root ? sqrtf(m(i, j)) : m(i, j));
  return ints(v, s);
}
static std::string lay(const std_msgs::MultiArrayLayout& l) {
  std::string o = "[";
  for (size_t k = 0; k < l.dim.size(); k++)
    o += std::string(k ? "," : "") + "[\"" + l.dim[k].label + "\"," + std::to_string(l.dim[k].size) + "," + std::to_string(l.dim[k].stride) + "]";
  return o + "]";
}
static void onGrid(const safe_landing_planner::SLPGridMsg& g) {
  Grid cur = node->safe_landing_planner_->getGrid();
  std::vector<std::string> cells;
  auto cnt = cur.getCounter();
  for (int i = 0; i < cnt.rows(); i++) for (int j = 0; j < cnt.cols(); j++)
    if (cnt(i, j)) cells.push_back("[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(cnt(i, j)) + "]");
  J c, m;
  c.f("size", cur.getGridSize()).f("cell", cur.getCellSize()).raw("mean", rowMajor(cur.getMean(), 1000)).raw("std", rowMajor(cur.getVariance(), 1000, true))
      .raw("cnt", rowMajor(cnt, 1)).raw("land", rowMajor(cur.land_, 1));
  m.f("size", g.grid_size).f("cell", g.cell_size).raw("mean", ints(g.mean.data, 1000)).raw("std", ints(g.std_dev.data, 1000))
      .raw("cnt", ints(g.counter.data, 1)).raw("land", ints(g.land.data, 1));
  ev(J("grid").i("now", nowMs()).i("seq", g.header.seq).s("frame", g.header.frame_id).raw("cells", jlist(cells)).raw("cur", c.str()).raw("msg", m.str())
      .raw("lay", "[" + lay(g.mean.layout) + "," + lay(g.std_dev.layout) + "," + lay(g.counter.layout) + "," + lay(g.land.layout) + "]")
      .arr("idx", {(long)g.curr_pos_index.x, (long)g.curr_pos_index.y}));
}
static std::string tri(double x, double y, double z, double k = 1000) { return "[" + std::to_string(fx(x, k)) + "," + std::to_string(fx(y, k)) + "," + std::to_string(fx(z, k)) + "]"; }
static std::string flat(const std::vector<visualization_msgs::Marker>& v) {
  std::vector<std::string> p, c, s;
  std::vector<long> id;
  bool plain = true;
  for (auto& m : v) {
    p.push_back(tri(m.pose.position.x, m.pose.position.y, m.pose.position.z)); c.push_back(tri(m.color.r, m.color.g, m.color.b, 100)); s.push_back(tri(m.scale.x, m.scale.y, m.scale.z)); id.push_back(m.id);
    plain = plain && m.type == visualization_msgs::Marker::CUBE && m.action == visualization_msgs::Marker::ADD && m.header.frame_id == "local_origin" && m.color.a > 0 && m.pose.orientation.w == 1;
  }
  return J().arr("id", id).raw("p", jlist(p)).raw("c", jlist(c)).raw("s", jlist(s)).b("plain", plain).str();
}
static void onMarkers(const std::string& t, const std::vector<visualization_msgs::Marker>& v) {
  if (drawings.count(t)) ev(J("twice").s("t", t));
  drawings[t] = v;
  if (drawings.size() < 3) return;
  Grid g = node->safe_landing_planner_->getGrid();
  Eigen::Vector2f lo, hi;
  g.getGridLimits(lo, hi);
  ev(J("drawing").f("cell", g.getCellSize()).i("n", g.getRowColSize()).raw("min", tri(lo.x(), lo.y(), 0)).i("smooth", 0).i("std", 500).i("npts", npts)
         .raw("mean", rowMajor(g.getMean(), 1000)).raw("sigma", rowMajor(g.getVariance(), 1000, true)).raw("cnt", rowMajor(g.getCounter(), 1)).raw("land", rowMajor(g.land_, 1))
         .raw("grid", flat(drawings["grid"])).raw("dev", flat(drawings["grid_mean_std_dev"])).raw("counter", flat(drawings["grid_counter"])));
  drawings.clear();
}
// cloud id k with stamp s: k points at (0.5, 0.5, k), 21-k points at (0.5, -1.5, 2k) of its camera, and NaN padding
static sensor_msgs::PointCloud2 cloud(long k, long s, long ns) {
  pcl::PointCloud<pcl::PointXYZ> c;
  for (long n = 0; n < 21; n++) {
    c.push_back(n < k ? pcl::PointXYZ(0.5f, 0.5f, k + 0.5f * (n % 3)) : pcl::PointXYZ(0.5f, -1.5f, 2.f * k));
    if (n % 7 == 0) c.push_back(pcl::PointXYZ(NAN, NAN, NAN));
  }
  c.is_dense = false;
  sensor_msgs::PointCloud2 m;
  pcl::toROSMsg(c, m);
  m.header.stamp = at(s, ns); m.header.frame_id = "cam"; m.is_dense = false;
  return m;
}
static void settle() {
  for (int idle = 0, n = 0; idle < 25 && n < 2000; n++) {
    long before = events;
    sched::round();
    idle = events == before ? idle + 1 : 0;
  }
}
// run the timer thread up to a point where it does nothing but wait for messages
static void quietM() {
  for (int n = 0; M && M->at != sched::Done && M->at != sched::Poll && n < 100000; n++)
    if (!sched::step(M) || M->failed) sched::round();
}
static long seqBase = -1;
static void fresh() {
  sched::enabled = false;
  sched::forget();
  node = nullptr; M = nullptr; ticking = false; watching = false; drawings.clear(); queued.clear(); order.clear();
  rosstub::reg().subs.clear(); rosstub::reg().timers.clear();
  rosstub::tfStore().clear();
  dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig>::all().clear();
  rosstub::setNow(T0);
}
int main(int argc, char** argv) {
  auto& r = rosstub::reg();
  rosstub::sleepHook() = [](int64_t ns) { if (sched::self) sched::yield(sched::Sleep, nullptr, ns); };
  r.onCallAvailable = callAvailable;
  r.onPublish = [](const std::string& t, std::type_index ty, const boost::shared_ptr<const void>& m) {
    if (watching && ty == std::type_index(typeid(visualization_msgs::MarkerArray))) onMarkers(t, static_cast<const visualization_msgs::MarkerArray*>(m.get())->markers);
    if (watching && t == "path_actual") {
      auto& k = *static_cast<const visualization_msgs::Marker*>(m.get());
      std::vector<std::string> pts;
      for (auto& q : k.points) pts.push_back(tri(q.x, q.y, q.z));
      ev(J("way").i("id", k.id).raw("pts", jlist(pts)));
    }
    if (t == "grid_slp") onGrid(*static_cast<const safe_landing_planner::SLPGridMsg*>(m.get()));
    if (t == "mavros/companion_process/status") {
      auto& s = *static_cast<const mavros_msgs::CompanionProcessStatus*>(m.get());
      ev(J("status").i("now", nowMs()).i("stamp", (s.header.stamp.toNSec() - T0) / 1000000LL).i("component", s.component).i("state", s.state));
    }
  };
  return run(argc, argv, fresh, [](const std::string& op, Args& a) {
    if (op == "create") {            // create rosbag tcrit tterm alpha npts
      rosbag = a.i();
      long tc = a.i(), tt = a.i(), al = a.i(), np = a.i();
      npts = np;
      ros::NodeHandle nh("~");
      nh.setParam("pointcloud_topics", std::string("/cloud"));
      nh.setParam("play_rosbag", (bool)rosbag);
      sched::enabled = true;
      node = new SafeLandingPlannerNode(nh);
      auto c = safe_landing_planner::SafeLandingPlannerNodeConfig();
      c.grid_size = 6; c.cell_size = 1; c.alpha = al / 100.0; c.n_points_threshold = np; c.smoothing_size = 0; c.std_dev_threshold = 0.5;
      c.timeout_critical = tc / 1000.0; c.timeout_termination = tt / 1000.0;
      rosstub::reconfigure<safe_landing_planner::SafeLandingPlannerNodeConfig>(c, 1);
      node->startNode();
      ev(J("create").b("rosbag", rosbag).i("tcrit", tc).i("tterm", tt));
    } else if (op == "watch") {
      watching = true;
      ev(J("watch"));
    } else if (op == "adv") {
      quietM();
      rosstub::advance(a.i() * 1000000LL);
      ev(J("adv").i("now", nowMs()));
    } else if (op == "tf") {
      long s = a.i(), ns = a.i();
      tf::StampedTransform t(tf::Transform(tf::Quaternion(0, 0, 0, 1), tf::Vector3((double)(s % 3 - 1), 0, 0)), at(s, ns), "local_origin", "cam");
      rosstub::tfStore().set("local_origin", "cam", t);
      ev(J("tf").i("s", s).i("ns", ns));
    } else if (op == "pose") {
      long x = a.i(), y = a.i();
      enqueue("pose", [=] {
        geometry_msgs::PoseStamped p;
        p.pose.position.x = x; p.pose.position.y = y; p.pose.orientation.w = 1;
        ev(J("pose").arr("p", {x, y}));
        rosstub::inject("mavros/local_position/pose", p);
      });
    } else if (op == "cloud") {
      long k = a.i(), s = a.i(), ns = a.i();
      enqueue("cloud", [=] { ev(J("cloud").i("id", k).i("s", s).i("ns", ns)); rosstub::inject("/cloud", cloud(k, s, ns)); });
    } else if (op == "raw") {
      long k = a.i();
      enqueue("raw", [=] {
        ev(J("raw").i("id", k));
        safe_landing_planner::SLPGridMsg g;
        g.grid_size = 6; g.cell_size = 1; g.header.seq = k;
        for (auto* l : {&g.mean.layout, &g.std_dev.layout, &g.counter.layout, &g.land.layout}) { l->dim.resize(2); l->dim[0].size = l->dim[1].size = 6; l->dim[0].stride = 36; l->dim[1].stride = 6; }
        for (int i = 0; i < 36; i++) { g.mean.data.push_back(k); g.std_dev.data.push_back(k / 10.f); g.counter.data.push_back(i == 21 ? k : i == 19 ? 21 - k : 0); g.land.data.push_back(0); }
        rosstub::inject("/raw_grid_slp", g);
      });
    } else if (op == "tick") {
      if (M && M->at != sched::Done) return;
      ev(J("tick").i("now", nowMs()));
      ticking = true;
      M = sched::spawn("timer", [] {
        int n = rosstub::fireByPeriod(0.1);
        ev(J("done").i("timers", n));
        ticking = false;
      });
    } else if (op == "m") {
      for (long n = a.i(); n > 0 && M; n--) sched::step(M);
    } else if (op == "w") {
      for (long n = a.i(); n > 0; n--) for (auto* t : std::vector<sched::T*>(sched::threads())) if (t != M && t->name != "timer") sched::step(t);
    } else if (op == "settle") {
      settle();
      ev(J("settled").b("waiting", ticking));
    }
  });
}
