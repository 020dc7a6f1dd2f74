// Drives the obstacle memory, the histogram, the cost functions and the tree search of the local planner
// through the public interface of LocalPlanner / StarPlanner and the planner functions.
// Lengths mm, angles 1/100 degree, times ms, parameters as noted at each operation.
#include "drv.h"
#include <local_planner/local_planner.h>
#include <local_planner/planner_functions.h>
#include <local_planner/star_planner.h>
#include <local_planner/tree_node.h>
using namespace drv;
using namespace avoidance;
static std::unique_ptr<LocalPlanner> p;
static LocalPlannerNodeConfig cfg;
static std::vector<pcl::PointCloud<pcl::PointXYZ>> clouds;
static int64_t now_ns, last_run;
static Eigen::Vector3f pos, vel, goal, prevg;
static long yaw_, pitch_;
static float un(long v) { return v == NANV ? NAN : v == INFV ? INFINITY : v == -INFV ? -INFINITY : v / 1000.0f; }
static Eigen::Vector3f vec(Args& a) { float x = un(a.i()), y = un(a.i()), z = un(a.i()); return Eigen::Vector3f(x, y, z); }
static std::string lst(std::initializer_list<long> v) { std::string s = "["; for (long x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string pt(const Eigen::Vector3f& q, double k = 1000) { return lst({fx(q.x(), k), fx(q.y(), k), fx(q.z(), k)}); }
static std::vector<long> mm(const Eigen::Vector3f& v) { return {fx(v.x()), fx(v.y()), fx(v.z())}; }
static int64_t ms(const ros::Time& t) { return (int64_t)(t.toNSec() / 1000000); }
static void fresh() {
  now_ns = 1000LL * 1000000000LL;
  rosstub::setNow(now_ns);
  p.reset(new LocalPlanner());
  cfg = LocalPlannerNodeConfig::__getDefault__();
  cfg.goal_z_param = 0;
  clouds.clear();
  last_run = 0;
  pos.setZero(); vel.setZero(); goal.setZero(); prevg.setZero();
  yaw_ = pitch_ = 0;
}
static Histogram hist_of(const pcl::PointCloud<pcl::PointXYZI>& c, const Eigen::Vector3f& at) {
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, c, at);
  return h;
}
static std::string sparse(const Histogram& h) {          // non-empty bins: [elevation, azimuth, distance]
  std::vector<std::string> o;
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++)
    if (h.get_dist(e, z) != 0.f) o.push_back(lst({e, z, fx(h.get_dist(e, z))}));
  return jlist(o);
}
static std::string matrix(const Eigen::MatrixXf& m, double k = 1) {
  std::vector<std::string> o;
  for (int r = 0; r < m.rows(); r++) {
    std::string s = "[";
    for (int c = 0; c < m.cols(); c++) s += (c ? "," : "") + std::to_string(fx(m(r, c), k));
    o.push_back(s + "]");
  }
  return jlist(o);
}
static std::string image(const std::vector<uint8_t>& v, int step, int off) {
  std::string s = "[";
  for (size_t k = off; k < v.size(); k += step) s += (s.size() > 1 ? "," : "") + std::to_string(v[k]);
  return s + "]";
}
static std::string cams(const std::vector<FOV>& f) {
  std::vector<std::string> o;
  for (auto& c : f) o.push_back(J().f("y", c.yaw_deg, 100).f("p", c.pitch_deg, 100).f("h", c.h_fov_deg, 100).f("v", c.v_fov_deg, 100).str());
  return jlist(o);
}
static std::string cloudI(const pcl::PointCloud<pcl::PointXYZI>& c) {
  std::vector<std::string> o;
  for (auto& q : c.points) o.push_back(lst({fx(q.x), fx(q.y), fx(q.z), fx(q.intensity)}));
  return jlist(o);
}
static std::string scan() {
  sensor_msgs::LaserScan m;
  p->getObstacleDistanceData(m);
  std::vector<long> r;
  for (float d : m.ranges) r.push_back(fx(d));
  return J().i("stamp", ms(m.header.stamp)).s("frame", m.header.frame_id).f("inc", m.angle_increment, 1e6).f("amin", m.angle_min, 1e6)
      .f("rmin", m.range_min).f("rmax", m.range_max).arr("r", r).str();
}
// the search, event by event; candidates recomputed with the cost functions for every expanded node
static void searchEvents(const std::vector<TreeNode>& tree, const std::vector<int>& closed, const std::vector<Eigen::Vector3f>& path,
                         const pcl::PointCloud<pcl::PointXYZI>& cloud, const Eigen::Vector3f& closest, const costParameters& cp) {
  double big = 0;
  std::vector<std::vector<candidateDirection>> cand;
  for (int o : closed) {
    if (o < 0 || o >= (int)tree.size()) { cand.push_back({}); continue; }
    Eigen::MatrixXf m;
    std::vector<uint8_t> img;
    std::vector<candidateDirection> c;
    Histogram h = hist_of(cloud, tree[o].getPosition());
    getCostMatrix(h, goal, tree[o].getPosition(), tree[o].getVelocity(), cp, cfg.smoothing_margin_degrees_, closest, cfg.max_sensor_range_,
                  cfg.min_sensor_range_, m, img);
    if (cfg.children_per_node_ > 0) getBestCandidatesFromCostMatrix(m, cfg.children_per_node_, c);
    cand.push_back(c);
    for (auto& q : c) big = std::max(big, std::fabs((double)q.cost));
  }
  for (auto& t : tree) if (std::isfinite(t.total_cost_)) big = std::max(big, std::fabs((double)t.total_cost_));
  if (!(big < 4e7)) { out()(J("skip")); return; }         // out of the range of the trace's integers
  auto node = [](const TreeNode& t) {
    return J().raw("p", pt(t.getPosition(), 1e4)).raw("v", pt(t.getVelocity(), 1e4)).f("t", t.total_cost_, 10).f("h", t.heuristic_, 10)
        .i("o", t.origin_).i("d", t.depth_).str();
  };
  if (tree.empty()) { out()(J("emptytree")); return; }
  out()(J("root").arr("pos", mm(pos)).arr("vel", mm(vel)).arr("goal", mm(goal)).i("kids", cfg.children_per_node_).i("expand", cfg.n_expanded_nodes_)
            .f("step", cfg.tree_node_distance_).f("reach", cfg.max_sensor_range_).f("hw", cfg.tree_heuristic_weight_).raw("node", node(tree[0])));
  size_t next = 1;
  for (size_t k = 0; k < closed.size(); k++) {
    std::vector<std::string> c, n;
    for (auto& q : cand[k]) c.push_back(lst({fx(q.elevation_angle, 100), fx(q.azimuth_angle, 100), fx(q.cost, 10)}));
    while (next < tree.size() && tree[next].origin_ == closed[k]) n.push_back(node(tree[next++]));
    out()(J("expand").i("o", closed[k]).raw("cand", jlist(c)).raw("new", jlist(n)));
  }
  std::vector<std::string> pp;
  std::vector<long> cl;
  for (auto& q : path) pp.push_back(pt(q, 1e4));
  for (auto& t : tree) cl.push_back(t.closed_);
  out()(J("done").i("n", tree.size()).arr("closed", cl).raw("path", jlist(pp)));
}
static costParameters costs() {
  costParameters c;
  c.pitch_cost_param = cfg.pitch_cost_param_;
  c.yaw_cost_param = cfg.yaw_cost_param_;
  c.velocity_cost_param = cfg.velocity_cost_param_;
  c.obstacle_cost_param = cfg.obstacle_cost_param_;
  return c;
}
static std::string parJ() {
  return J().f("yaw", cfg.yaw_cost_param_, 100).f("pitch", cfg.pitch_cost_param_, 100).f("vel", cfg.velocity_cost_param_, 100)
      .f("obst", cfg.obstacle_cost_param_).f("min", cfg.min_sensor_range_).f("max", cfg.max_sensor_range_).f("margin", cfg.smoothing_margin_degrees_).str();
}
int main(int argc, char** argv) {
  return run(argc, argv, fresh, [](const std::string& op, Args& a) {
    if (op == "ranges") {        // min max age count
      cfg.min_sensor_range_ = a.i() / 1000.0; cfg.max_sensor_range_ = a.i() / 1000.0; cfg.max_point_age_s_ = a.i() / 1000.0; cfg.min_num_points_per_cell_ = a.i();
    } else if (op == "costs") {  // yaw pitch vel (1/100) obstacle margin(mm, degrees/1000)
      cfg.yaw_cost_param_ = a.i() / 100.0; cfg.pitch_cost_param_ = a.i() / 100.0; cfg.velocity_cost_param_ = a.i() / 100.0;
      cfg.obstacle_cost_param_ = a.i() / 1000.0; cfg.smoothing_margin_degrees_ = a.i() / 1000.0;
    } else if (op == "tree") {   // children expanded distance weight
      cfg.children_per_node_ = a.i(); cfg.n_expanded_nodes_ = a.i(); cfg.tree_node_distance_ = a.i() / 1000.0; cfg.tree_heuristic_weight_ = a.i() / 1000.0;
    } else if (op == "apply") {
      cfg.goal_z_param = goal.z();
      p->dynamicReconfigureSetParams(cfg, 0);
      goal = p->getGoal();
      out()(J(op).f("min", cfg.min_sensor_range_).f("max", cfg.max_sensor_range_).f("age", cfg.max_point_age_s_).i("count", cfg.min_num_points_per_cell_)
                .raw("par", parJ()));
    } else if (op == "fov") {
      int i = a.i(); long y = a.i(), q = a.i(), h = a.i(), v = a.i();
      p->setFOV(i, FOV(y / 100.0f, q / 100.0f, h / 100.0f, v / 100.0f));
      out()(J(op).raw("cams", cams(p->getFOV())));
    } else if (op == "px4") {    // collision prevention distance, cruise, acceleration, jerk, mission speed
      p->px4_.param_cp_dist = un(a.i()); p->px4_.param_mpc_xy_cruise = un(a.i()); p->px4_.param_mpc_acc_hor = un(a.i()); p->px4_.param_mpc_jerk_max = un(a.i());
      p->mission_item_speed_ = un(a.i());
      out()(J(op).f("cp", p->px4_.param_cp_dist).f("cruise", p->px4_.param_mpc_xy_cruise).f("acc", p->px4_.param_mpc_acc_hor).f("jerk", p->px4_.param_mpc_jerk_max)
                .f("mission", p->mission_item_speed_));
    } else if (op == "goal") {
      goal = vec(a); prevg = vec(a);
      p->setGoal(goal); p->setPreviousGoal(prevg);
    } else if (op == "pose") {   // pos vel yaw pitch
      pos = vec(a); vel = vec(a); yaw_ = a.i(); pitch_ = a.i();
      double hy = yaw_ * M_PI / 36000.0, hp = pitch_ * M_PI / 36000.0;
      Eigen::Quaterniond q = Eigen::Quaterniond(cos(hy), 0, 0, sin(hy)) * Eigen::Quaterniond(cos(hp), 0, sin(hp), 0);
      p->setState(pos, vel, q.cast<float>());
    } else if (op == "cloud") {  // camera n points
      size_t c = a.i(); int n = a.i();
      if (clouds.size() <= c) clouds.resize(c + 1);
      clouds[c].clear();
      clouds[c].header.frame_id = "cam" + std::to_string(c);
      clouds[c].header.stamp = now_ns / 1000;
      for (int k = 0; k < n; k++) { auto v = vec(a); clouds[c].push_back(pcl::PointXYZ(v.x(), v.y(), v.z())); }
      p->original_cloud_vector_ = clouds;
    } else if (op == "run") {    // dt what: 1 memory, 2 histogram/message, 4 tree, 8 cost image, 16 output
      now_ns += a.i() * 1000000LL;
      int what = a.i();
      rosstub::setNow(now_ns);
      p->runPlanner();
      const auto& c = p->getPointcloud();
      std::vector<std::string> in;
      for (auto& cl : p->original_cloud_vector_) for (auto& q : cl.points) in.push_back(lst({fx(q.x), fx(q.y), fx(q.z)}));
      J j("run");
      j.i("now", now_ns / 1000000).i("dt", last_run ? (now_ns - last_run) / 1000000 : now_ns / 1000000).arr("pos", mm(pos)).arr("vel", mm(vel)).i("yaw", yaw_).i("pitch", pitch_)
          .arr("goal", mm(goal)).arr("prev", mm(prevg)).raw("in", what & 1 ? jlist(in) : "[]").raw("out", what & 3 ? cloudI(c) : "[]")
          .i("w", c.width).i("h", c.height).s("frame", c.header.frame_id);
      last_run = now_ns;
      if (what & 2) j.raw("hist", sparse(hist_of(c, pos))).raw("image", image(p->histogram_image_data_, 1, 0)).raw("scan", scan());
      if (what & 8) j.raw("hist", sparse(hist_of(c, pos))).raw("red", image(p->cost_image_data_, 3, 0)).raw("green", image(p->cost_image_data_, 3, 1)).raw("blue", image(p->cost_image_data_, 3, 2));
      if (what & 16) {
        avoidanceOutput o = p->getAvoidanceOutput();
        std::vector<TreeNode> t; std::vector<int> cl; std::vector<Eigen::Vector3f> path;
        p->getTree(t, cl, path);
        j.b("empty", c.points.empty()).i("ptime", ms(o.last_path_time)).f("cruise", o.cruise_velocity).b("samepath", path == o.path_node_positions).i("plen", path.size());
      }
      out()(j);
      if (what & 4) {
        // the planner's own search, in the case where the point projected on the line is the goal itself
        std::vector<TreeNode> t; std::vector<int> cl; std::vector<Eigen::Vector3f> path;
        p->getTree(t, cl, path);
        if (!c.points.empty()) searchEvents(t, cl, path, c, goal, costs());
      }
    } else if (op == "search") { // closest point, n, points x y z
      Eigen::Vector3f closest = vec(a);
      int n = a.i();
      pcl::PointCloud<pcl::PointXYZI> c;
      for (int k = 0; k < n; k++) { auto v = vec(a); c.push_back(toXYZI(v, 0)); }
      StarPlanner s;
      s.dynamicReconfigureSetStarParams(cfg, 0);
      s.setParams(costs());
      s.setPose(pos, vel);
      s.setGoal(goal);
      s.setPointcloud(c);
      s.setClosestPointOnLine(closest);
      for (int rep = 0; rep < 2; rep++) {     // the second search starts from scratch
        s.buildLookAheadTree();
        searchEvents(s.tree_, s.closed_set_, s.path_node_positions_, c, closest, costs());
      }
    } else if (op == "cost") {   // e z dist goal pos vel closest facing
      long e = a.i(), z = a.i(), d = a.i();
      Eigen::Vector3f g = vec(a), q = vec(a), v = vec(a), c = vec(a);
      bool facing = a.i();
      auto r = costFunction(PolarPoint(e / 100.0f, z / 100.0f, 1.0f), d / 1000.0f, g, q, v, costs(), c, facing);
      out()(J(op).i("e", e).i("z", z).i("d", d).arr("goal", mm(g)).arr("pos", mm(q)).arr("vel", mm(v)).arr("line", mm(c)).b("facing", facing).raw("par", parJ())
                .f("dist", r.first, 10).f("other", r.second, 10));
    } else if (op == "matrix") { // goal pos vel closest n bins (e z d)
      Eigen::Vector3f g = vec(a), q = vec(a), v = vec(a), c = vec(a);
      int n = a.i();
      Histogram h(ALPHA_RES);
      std::vector<std::string> in;
      for (int k = 0; k < n; k++) { int e = a.i(), z = a.i(); long d = a.i(); h.set_dist(e, z, d / 1000.0f); }
      Eigen::MatrixXf m;
      std::vector<uint8_t> img;
      getCostMatrix(h, g, q, v, costs(), cfg.smoothing_margin_degrees_, c, cfg.max_sensor_range_, cfg.min_sensor_range_, m, img);
      out()(J(op).arr("goal", mm(g)).arr("pos", mm(q)).arr("vel", mm(v)).arr("line", mm(c)).raw("par", parJ()).raw("hist", sparse(h)).raw("m", matrix(m))
                .raw("red", image(img, 3, 0)).raw("green", image(img, 3, 1)).raw("blue", image(img, 3, 2)));
    } else if (op == "smooth") { // radius rows cols values
      int r = a.i(), R = a.i(), C = a.i();
      Eigen::MatrixXf m(R, C);
      for (int i = 0; i < R; i++) for (int k = 0; k < C; k++) m(i, k) = a.i();
      std::string in = matrix(m);
      smoothPolarMatrix(m, r);
      out()(J(op).i("r", r).raw("in", in).raw("out", matrix(m, 10)));
    } else if (op == "pad") {
      int r = a.i(), R = a.i(), C = a.i();
      Eigen::MatrixXf m(R, C), o;
      for (int i = 0; i < R; i++) for (int k = 0; k < C; k++) m(i, k) = a.i();
      padPolarMatrix(m, r, o);
      out()(J(op).i("r", r).raw("in", matrix(m)).raw("out", matrix(o)));
    } else if (op == "best") {   // n mod seed: pseudo-random full-size matrix
      int n = a.i(); long mod = a.i(), seed = a.i();
      Eigen::MatrixXf m(GRID_LENGTH_E, GRID_LENGTH_Z);
      uint64_t s = seed;
      for (int i = 0; i < m.rows(); i++) for (int k = 0; k < m.cols(); k++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; m(i, k) = (s >> 33) % mod; }
      std::vector<candidateDirection> c;
      getBestCandidatesFromCostMatrix(m, n, c);
      std::vector<std::string> o;
      for (auto& q : c) o.push_back(lst({fx(q.elevation_angle, 100), fx(q.azimuth_angle, 100), fx(q.cost, 1)}));
      out()(J(op).i("n", n).raw("m", matrix(m)).raw("c", jlist(o)));
    } else if (op == "cruise") { // getAvoidanceOutput for the current parameters
      avoidanceOutput o = p->getAvoidanceOutput();
      out()(J(op).f("max", p->getSensorRange()).f("v", o.cruise_velocity));
    }
  });
}
