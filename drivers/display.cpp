// Drives everything that draws: the displays of the local planner, of the landing planner and the world loader.
// Lengths in mm, angles in 1/100 degree, colours in 1/100.
#include "drv.h"
#include <avoidance/rviz_world_loader.h>
#include <local_planner/local_planner.h>
#include <local_planner/local_planner_visualization.h>
#include <local_planner/planner_functions.h>
#include <local_planner/tree_node.h>
#include <safe_landing_planner/safe_landing_planner.hpp>
#include <safe_landing_planner/safe_landing_planner_visualization.hpp>
#include <sys/stat.h>
#include <fstream>
using namespace drv;
using namespace avoidance;
static std::unique_ptr<LocalPlannerVisualization> lv;
static std::unique_ptr<SafeLandingPlannerVisualization> sv;
static std::unique_ptr<LocalPlanner> lp;
static std::unique_ptr<SafeLandingPlanner> sp;
static std::unique_ptr<WorldVisualizer> world;
static std::vector<std::string> shown;
static std::string scratch;
static std::vector<uint8_t> hist_in, cost_in;
static int64_t now_ns;
static float un(long v) { return v == NANV ? NAN : v == INFV ? INFINITY : v / 1000.0f; }
static Eigen::Vector3f vec(Args& a) { float x = un(a.i()), y = un(a.i()), z = un(a.i()); return Eigen::Vector3f(x, y, z); }
static std::string tri(double x, double y, double z, double k = 1000) { return "[" + std::to_string(fx(x, k)) + "," + std::to_string(fx(y, k)) + "," + std::to_string(fx(z, k)) + "]"; }
static std::string tri(const Eigen::Vector3f& v) { return tri(v.x(), v.y(), v.z()); }
static std::string tri(const geometry_msgs::Point& v) { return tri(v.x, v.y, v.z); }
static Eigen::Quaternionf turned(long yaw) { double h = yaw * M_PI / 36000.0; return Eigen::Quaternionf(cos(h), 0, 0, sin(h)); }
static void marker(const std::string& t, const visualization_msgs::Marker& m) {
  std::vector<std::string> p, c;
  for (auto& q : m.points) p.push_back(tri(q));
  for (auto& q : m.colors) c.push_back(tri(q.r, q.g, q.b, 100));
  shown.push_back(J().s("t", t).i("k", m.type).i("id", m.id).s("f", m.header.frame_id).i("act", m.action).raw("p", tri(m.pose.position))
                      .raw("q", "[" + std::to_string(fx(m.pose.orientation.x, 1e4)) + "," + std::to_string(fx(m.pose.orientation.y, 1e4)) + "," +
                                    std::to_string(fx(m.pose.orientation.z, 1e4)) + "," + std::to_string(fx(m.pose.orientation.w, 1e4)) + "]")
                      .raw("c", tri(m.color.r, m.color.g, m.color.b, 100)).b("visible", m.color.a > 0 || m.mesh_use_embedded_materials)
                      .raw("s", tri(m.scale.x, m.scale.y, m.scale.z)).raw("pts", jlist(p)).raw("cols", jlist(c)).b("forever", m.lifetime == ros::Duration())
                      .s("mesh", m.mesh_resource).b("own", m.mesh_use_embedded_materials).str());
}
static std::string cloudJ(const pcl::PointCloud<pcl::PointXYZI>& c) {
  std::vector<std::string> o;
  for (auto& q : c.points) o.push_back("[" + std::to_string(fx(q.x)) + "," + std::to_string(fx(q.y)) + "," + std::to_string(fx(q.z)) + "," + std::to_string(fx(q.intensity)) + "]");
  return jlist(o);
}
static void onPublish(const std::string& topic, std::type_index ty, const boost::shared_ptr<const void>& m) {
  std::string t = topic;
  if (ty == std::type_index(typeid(visualization_msgs::Marker))) marker(t, *static_cast<const visualization_msgs::Marker*>(m.get()));
  else if (ty == std::type_index(typeid(visualization_msgs::MarkerArray)))
    { auto& a = *static_cast<const visualization_msgs::MarkerArray*>(m.get()); if (a.markers.empty()) shown.push_back(J().s("t", t).i("k", -1).str()); for (auto& q : a.markers) marker(t, q); }
  else if (ty == std::type_index(typeid(sensor_msgs::Image))) {
    auto& i = *static_cast<const sensor_msgs::Image*>(m.get());
    auto& in = t == "cost_image" ? cost_in : hist_in;
    std::vector<std::string> d;
    if (in.size() == i.data.size()) for (size_t k = 0; k < in.size(); k++) if (in[k] != i.data[k]) d.push_back("[" + std::to_string(k) + "," + std::to_string((int)i.data[k]) + "]");
    std::vector<long> dummy;
    shown.push_back(J().s("t", t).i("k", 100).i("h", i.height).i("w", i.width).i("step", i.step).s("enc", i.encoding).i("n", i.data.size()).i("given", in.size()).b("big", i.is_bigendian).raw("diff", jlist(d)).str());
  } else if (t == "pointcloud_size") shown.push_back(J().s("t", t).i("k", 101).i("n", static_cast<const std_msgs::UInt32*>(m.get())->data).str());
  else if (ty == std::type_index(typeid(pcl::PointCloud<pcl::PointXYZI>))) {
    auto& c = *static_cast<const pcl::PointCloud<pcl::PointXYZI>*>(m.get());
    shown.push_back(J().s("t", t).i("k", 102).s("f", c.header.frame_id).raw("pts", cloudJ(c)).str());
  } else shown.push_back(J().s("t", t).i("k", 103).str());
}
// What is drawn on different topics may come in any order: it is listed topic by topic (several cameras by number).
static void inOrder() {
  static const std::vector<std::string> topics = {"grid_pointcloud", "local_pointcloud", "pointcloud_size", "complete_tree", "tree_path", "goal_position", "histogram_image", "cost_image", "fov", "range_scan",
    "path_actual", "path_waypoint", "path_adapted_waypoint", "original_waypoint", "adapted_waypoint", "smoothed_waypoint", "closest_point", "deg60_point"};
  auto rank = [&](const std::string& s) {
    std::string t = s.substr(6, s.find('"', 6) - 6);
    size_t at = s.find("\"id\":");
    return std::make_pair(std::find(topics.begin(), topics.end(), t) - topics.begin(), t == "fov" ? atoi(s.c_str() + at + 5) : 0);
  };
  std::stable_sort(shown.begin(), shown.end(), [&](const std::string& a, const std::string& b) { return rank(a) < rank(b); });
}
static void ev(J j) { inOrder(); out()(j.raw("out", jlist(shown))); shown.clear(); }
static void fresh() {
  now_ns = 1000LL * 1000000000LL;
  rosstub::setNow(now_ns);
  world.reset();
  rosstub::reg().subs.clear(); rosstub::reg().timers.clear(); rosstub::reg().params.clear();
  ros::NodeHandle nh("~");
  lv.reset(new LocalPlannerVisualization()); lv->initializePublishers(nh);
  sv.reset(new SafeLandingPlannerVisualization()); sv->initializePublishers(nh);
  lp.reset(new LocalPlanner()); sp.reset(new SafeLandingPlanner());
  shown.clear(); hist_in.clear(); cost_in.clear();
}
static std::string fovJ(const std::vector<FOV>& f) {
  std::vector<std::string> o;
  for (auto& c : f) o.push_back(J().f("y", c.yaw_deg, 100).f("p", c.pitch_deg, 100).f("h", c.h_fov_deg, 100).f("v", c.v_fov_deg, 100).str());
  return jlist(o);
}
static std::string lines(const std::vector<Eigen::Vector3f>& v) { std::vector<std::string> o; for (auto& q : v) o.push_back(tri(q)); return jlist(o); }
static std::string treeJ(const std::vector<TreeNode>& t) {
  std::vector<std::string> o;
  for (auto& n : t) o.push_back(J().raw("p", tri(n.getPosition())).i("o", n.origin_).str());
  return jlist(o);
}
static void runLocal(const std::string& op, Args& a) {
  if (op == "paths") {
    Eigen::Vector3f v[6];
    for (auto& x : v) x = vec(a);
    lv->publishPaths(v[0], v[1], v[2], v[3], v[4], v[5]);
    ev(J(op).raw("v", lines({v[0], v[1], v[2], v[3], v[4], v[5]})));
  } else if (op == "wps") {
    Eigen::Vector3f x = vec(a), y = vec(a), z = vec(a);
    lv->visualizeWaypoints(x, y, z);
    ev(J(op).raw("v", lines({x, y, z})));
  } else if (op == "arrow") {
    Eigen::Vector3f v = vec(a), at = vec(a);
    std::string s = a.s();
    geometry_msgs::Twist w;
    w.linear.x = v.x(); w.linear.y = v.y(); w.linear.z = v.z();
    w.angular.z = 1.5;
    static const std::map<std::string, PlannerState> st = {{"loiter", PlannerState::LOITER}, {"path", PlannerState::TRY_PATH}, {"direct", PlannerState::DIRECT}, {"altitude", PlannerState::ALTITUDE_CHANGE}};
    lv->publishCurrentSetpoint(w, st.at(s), at);
    ev(J(op).raw("vel", tri(v)).raw("pos", tri(at)).s("state", s));
  } else if (op == "off") {
    Eigen::Vector3f x = vec(a), y = vec(a);
    lv->publishOfftrackPoints(x, y);
    ev(J(op).raw("v", lines({x, y})));
  } else if (op == "goal") {
    Eigen::Vector3f x = vec(a);
    lv->publishGoal(toPoint(x));
    ev(J(op).raw("p", tri(x)));
  } else if (op == "fov") {     // range n cams
    float range = un(a.i());
    std::vector<FOV> f;
    for (int n = a.i(); n > 0; n--) { long y = a.i(), p = a.i(), h = a.i(), v = a.i(); f.push_back(FOV(y / 100.0f, p / 100.0f, h / 100.0f, v / 100.0f)); }
    lv->publishFOV(f, range);
    ev(J(op).f("range", range).raw("cams", fovJ(f)));
  } else if (op == "scan") {    // pos max inc n ranges
    Eigen::Vector3f at = vec(a);
    sensor_msgs::LaserScan s;
    s.range_max = un(a.i());
    long inc = a.i();
    s.angle_increment = inc * M_PI / 18000.0;
    std::vector<long> r;
    for (int n = a.i(); n > 0; n--) { s.ranges.push_back(un(a.i())); r.push_back(fx(s.ranges.back())); }
    lv->publishRangeScan(s, at);
    ev(J(op).raw("pos", tri(at)).f("max", s.range_max).i("inc", inc).arr("r", r));
  } else if (op == "tree") {    // n (pos origin) k closed m path
    std::vector<TreeNode> t;
    for (int n = a.i(); n > 0; n--) { Eigen::Vector3f q = vec(a); int o = a.i(); t.push_back(TreeNode(o, q, Eigen::Vector3f(1, 2, 3))); }
    std::vector<int> c;
    std::vector<long> cl;
    for (int n = a.i(); n > 0; n--) { c.push_back(a.i()); cl.push_back(c.back()); }
    std::vector<Eigen::Vector3f> p;
    for (int n = a.i(); n > 0; n--) p.push_back(vec(a));
    lv->publishTree(t, c, p);
    ev(J(op).raw("tree", treeJ(t)).arr("closed", cl).raw("path", lines(p)));
  } else if (op == "images") {  // seed full wp adapted pos yaw
    uint64_t s = a.i();
    bool full = a.i();
    Eigen::Vector3f w = vec(a), d = vec(a), at = vec(a);
    long yaw = a.i();
    auto next = [&] { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint8_t)((s >> 33) % 255); };
    hist_in.clear(); cost_in.clear();
    if (full) { for (int k = 0; k < GRID_LENGTH_E * GRID_LENGTH_Z; k++) { hist_in.push_back(next()); for (int c = 0; c < 3; c++) cost_in.push_back(next()); } }
    lv->publishDataImages(hist_in, cost_in, w, d, at, turned(yaw));
    ev(J(op).raw("wp", tri(w)).raw("ad", tri(d)).raw("pos", tri(at)).i("yaw", yaw).b("full", full));
  } else if (op == "show") {    // goal pos vel yaw range n cams n points wp ad: the real planner, after a cycle
    Eigen::Vector3f g = vec(a), at = vec(a), v = vec(a);
    long yaw = a.i(), range = a.i(), go = a.i();
    LocalPlannerNodeConfig cfg = LocalPlannerNodeConfig::__getDefault__();
    cfg.goal_z_param = g.z(); cfg.max_sensor_range_ = range / 1000.0; cfg.min_num_points_per_cell_ = 1;
    lp->setGoal(g); lp->setPreviousGoal(g);
    lp->dynamicReconfigureSetParams(cfg, 0);
    int n = a.i();
    for (int k = 0; k < n; k++) { long y = a.i(), p = a.i(), h = a.i(), w = a.i(); lp->setFOV(k, FOV(y / 100.0f, p / 100.0f, h / 100.0f, w / 100.0f)); }
    lp->setState(at, v, turned(yaw));
    pcl::PointCloud<pcl::PointXYZ> c;
    for (n = a.i(); n > 0; n--) { auto q = vec(a); c.push_back(pcl::PointXYZ(q.x(), q.y(), q.z())); }
    lp->original_cloud_vector_ = {c};
    now_ns += 100000000LL; rosstub::setNow(now_ns);
    Eigen::Vector3f w = vec(a), d = vec(a);
    if (go) lp->runPlanner();
    hist_in = lp->histogram_image_data_; cost_in = lp->cost_image_data_;
    lv->visualizePlannerData(*lp, w, d, at, turned(yaw));
    std::vector<TreeNode> t; std::vector<int> cl; std::vector<Eigen::Vector3f> path;
    lp->getTree(t, cl, path);
    std::vector<long> closed(cl.begin(), cl.end()), ranges;
    for (float x : lp->distance_data_.ranges) ranges.push_back(fx(x));
    ev(J(op).raw("wp", tri(w)).raw("ad", tri(d)).raw("pos", tri(at)).i("yaw", yaw).b("full", hist_in.size() == GRID_LENGTH_E * GRID_LENGTH_Z).raw("goal", tri(lp->getGoal()))
           .f("range", lp->getSensorRange()).raw("cams", fovJ(lp->getFOV())).raw("cloud", cloudJ(lp->getPointcloud())).raw("tree", treeJ(t)).arr("closed", closed).raw("path", lines(path))
           .f("max", lp->distance_data_.range_max).f("inc", lp->distance_data_.angle_increment * RAD_TO_DEG, 100).arr("r", ranges));
  }
}
#include "display_landing.h"
#include "display_world.h"
int main(int argc, char** argv) {
  char tmp[] = "/tmp/vp_displayXXXXXX";
  scratch = mkdtemp(tmp);
  rosstub::reg().onPublish = onPublish;
  int rc = run(argc, argv, fresh, [](const std::string& op, Args& a) {
    runLocal(op, a); runLanding(op, a); runWorld(op, a);
  });
  std::string rm = "/bin/rm -rf " + scratch;
  if (scratch.compare(0, 15, "/tmp/vp_display") == 0) (void)!system(rm.c_str());
  return rc;
}
