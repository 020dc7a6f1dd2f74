// Drives the global planner library. Cells are index triples; positions in 1/8 m.
#include "drv.h"
#include <ros/ros.h>
#include <octomap_msgs/conversions.h>
#include <global_planner/global_planner.h>
using namespace drv;
using namespace global_planner;
static std::unique_ptr<GlobalPlanner> gp;
static int S = 2;  // cell size in half metres
static const float KIND[6] = {0.f, -2.0f, -0.4f, 0.0f, 0.85f, 3.5f};
static Cell cell(Args& a) { int x = a.i(), y = a.i(), z = a.i(); return Cell(std::tuple<int, int, int>(x, y, z)); }
static std::vector<long> c3(const Cell& c) { return {c.xIndex(), c.yIndex(), c.zIndex()}; }
static std::string list(const std::vector<Cell>& v) {
  std::vector<std::string> o;
  for (auto& c : v) o.push_back("[" + std::to_string(sat(c.xIndex())) + "," + std::to_string(sat(c.yIndex())) + "," + std::to_string(sat(c.zIndex())) + "]");
  return jlist(o);
}
static long risk8(double r) { return std::isnan(r) ? NANV : (r >= 1.2 ? 120000000L : fx(r, 1e8)); }
static NodePtr mk(const std::string& k, const Cell& c, const Cell& p) { return gp->getStartNode(c, p, k); }
static std::vector<Cell> cells(Args& a) { std::vector<Cell> v; int n = a.i(); while (n--) v.push_back(cell(a)); return v; }
// an octree of another kind than the planner can use
struct Alien : octomap::AbstractOcTree { double getResolution() const { return 0.25; } size_t memoryUsage() const { return 0; } size_t size() const { return 0; } std::string getTreeType() const { return "ColorOcTree"; } };

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return run(argc, argv, [] { gp.reset(new GlobalPlanner()); CELL_SCALE = 1.0; S = 2; SPEEDNODE_RADIUS = 5.0; gp->curr_vel_ = geometry_msgs::Vector3(); gp->curr_pos_ = geometry_msgs::Point(); }, [](const std::string& op, Args& a) {
    if (op == "scale") {
      S = a.i(); CELL_SCALE = S / 2.0;
    } else if (op == "par") {  // alt minalt mr(1e-4) sm(1/10) rf flow(%) pen(1e-4) up down(1/10) rr sr(mm) kind over(min,max 1e-2) iters free yaw st(ms) riskh speedh
      J j("par");
      j.i("s", S);
      long v;
      j.i("alt", v = a.i()); gp->max_altitude_ = v;
      j.i("minalt", v = a.i()); gp->min_altitude_ = v;
      v = a.i(); j.i("mr", v * 10000); gp->max_cell_risk_ = v / 1e4;
      j.i("sm", v = a.i()); gp->smooth_factor_ = v / 10.0;
      j.i("rf", v = a.i()); gp->risk_factor_ = v;
      j.i("flow", v = a.i()); gp->neighbor_risk_flow_ = v / 100.0;
      j.i("pen", v = a.i()); gp->explore_penalty_ = v / 1e4;
      j.i("up", v = a.i()); gp->up_cost_ = v / 10.0;
      j.i("down", v = a.i()); gp->down_cost_ = v / 10.0;
      j.i("rr", v = a.i()); gp->setRobotRadius(v / 1e3);
      j.i("sr", v = a.i()); SPEEDNODE_RADIUS = v / 1e3;
      std::string k = a.s(); j.s("kind", k); gp->default_node_type_ = k;
      j.i("omin", v = a.i()); gp->min_overestimate_factor_ = v / 100.0;
      j.i("omax", v = a.i()); gp->max_overestimate_factor_ = v / 100.0;
      j.i("iters", v = a.i()); gp->max_iterations_ = v;
      j.b("free", v = a.i()); gp->goal_must_be_free_ = v;
      j.b("yaw", v = a.i()); gp->use_current_yaw_ = v;
      j.i("st", v = a.i()); gp->search_time_ = v / 1e3;
      j.b("riskh", v = a.i()); gp->use_risk_heuristics_ = v;
      j.b("speedh", v = a.i()); gp->use_speedup_heuristics_ = v;
      gp->risk_cache_.clear();  // as the node does on reconfiguration
      out()(j);
    } else if (op == "map") {  // rh n (x y z kind)*
      int rh = a.i(), n = a.i();
      octomap_msgs::Octomap m;
      m.resolution = rh / 2.0;
      std::vector<std::string> o;
      while (n--) {
        int x = a.i(), y = a.i(), z = a.i(), k = a.i();
        octomap_msgs::put(m, x, y, z, KIND[k]);
        o.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + std::to_string(k) + "]");
      }
      gp->updateFullOctomap(octomap_msgs::msgToMap(m));
      out()(J("map").i("rh", rh).raw("vox", jlist(o)));
    } else if (op == "alien") {
      gp->updateFullOctomap(new Alien());
      out()(J("alien"));
    } else if (op == "occ") {
      Cell c = cell(a);
      gp->occupied_.insert(c);
      out()(J("occ").arr("c", c3(c)));
    } else if (op == "pose" || op == "vel") {  // 1/8 m, 1/8 m/s
      double x = a.i() / 8.0, y = a.i() / 8.0, z = a.i() / 8.0;
      if (op == "pose") {
        geometry_msgs::PoseStamped p;
        p.pose.position.x = x; p.pose.position.y = y; p.pose.position.z = z; p.pose.orientation.w = 1;
        gp->setPose(p);
      } else { gp->curr_vel_.x = x; gp->curr_vel_.y = y; gp->curr_vel_.z = z; }
      out()(J(op).v3("p", x, y, z, 8));
    } else if (op == "goal") {  // cell radius(mm) temporary
      Cell c = cell(a); int r = a.i(); bool t = a.i();
      gp->setGoal(GoalCell(c, r / 1e3, t));
      out()(J("goal").arr("c", c3(c)).i("r", r).b("blocked", gp->goal_is_blocked_).b("back", gp->going_back_).i("left", gp->heuristic_cache_.size() + gp->bubble_risk_cache_.size()));
    } else if (op == "pos") {  // position -> cell
      double x = a.i() / 8.0, y = a.i() / 8.0, z = a.i() / 8.0;
      Cell c(x, y, z);
      geometry_msgs::Point p; p.x = x; p.y = y; p.z = z;
      Cell d(p), back(c.toPoint());
      out()(J("pos").i("s", S).v3("p", x, y, z, 8).arr("c", c3(c)).arr("d", c3(d)).v3("m", c.xPos(), c.yPos(), c.zPos(), 8).arr("back", c3(back)).arr("flat", c3(Cell(x, y))));
    } else if (op == "pair") {  // two cells
      Cell c = cell(a), d = cell(a);
      std::hash<Cell> h;
      out()(J("pair").i("s", S).arr("a", c3(c)).arr("b", c3(d)).b("eq", c == d).b("ne", c != d).b("lt", c < d).b("gt", c > d).b("le", c <= d).b("ge", c >= d).b("hash", h(c) == h(d))
        .f("d2", c.distance2D(d), 1e4).f("d3", c.distance3D(d), 1e4).f("g2", c.diagDistance2D(d), 1e4).f("g3", c.diagDistance3D(d), 1e4)
        .arr("sum", c3(c + d)).arr("dif", c3(c - d)).f("ang", (c - d).angle(), 1e5).f("man", c.manhattanDist(d.xPos(), d.yPos(), d.zPos()), 1e4));
    } else if (op == "nb") {  // cell radius
      Cell c = cell(a); int r = a.i();
      out()(J("nb").arr("a", c3(c)).i("r", r).raw("nb", list(c.getNeighbors())).raw("dg", list(c.getDiagonalNeighbors())).raw("fl", list(c.getFlowNeighbors(r))));
    } else if (op == "region") {  // cell r(mm) other position
      Cell c = cell(a); int r = a.i(); Cell o = cell(a);
      geometry_msgs::Point p; p.x = a.i() / 8.0; p.y = a.i() / 8.0; p.z = a.i() / 8.0;
      GoalCell g(c, r / 1e3);
      out()(J("region").i("s", S).arr("g", c3(c)).i("r", r).arr("c", c3(o)).b("plan", g.withinPlanRadius(o)).v3("p", p.x, p.y, p.z, 8).b("at", g.withinPositionRadius(p)));
    } else if (op == "node") {  // kind cell parent cell parent
      std::string k = a.s();
      Cell c = cell(a), p = cell(a), c2 = cell(a), p2 = cell(a);
      NodePtr n = mk(k, c, p), m = mk(k, c2, p2);
      std::vector<Cell> next, own;
      bool linked = true;
      for (auto& x : n->getNeighbors()) { next.push_back(x->cell_); linked = linked && x->parent_ == c; }
      std::vector<Cell> swept;
      for (auto& x : n->getCells()) swept.push_back(x);
      out()(J("node").i("s", S).i("sr", std::lround(SPEEDNODE_RADIUS * 1000)).s("kind", k).arr("c", c3(c)).arr("p", c3(p)).arr("c2", c3(c2)).arr("p2", c3(p2)).b("eq", n->isEqual(*m)).b("lt", n->isSmaller(*m))
        .b("hash", n->hash() == m->hash()).f("rot", n->getRotation(*m), 1e4).f("len", n->getLength(), 1e4).raw("next", list(next)).b("linked", linked).raw("swept", list(swept)));
    } else if (op == "risk") {
      Cell c = cell(a);
      out()(J("risk").arr("c", c3(c)).i("r", risk8(gp->getRisk(c))).b("occ", gp->isOccupied(c)).f("prior", gp->getAltPrior(c), 1e4));
    } else if (op == "edge") {  // kind  cell parent next
      std::string k = a.s();
      Cell c = cell(a), p = cell(a), v = cell(a);
      NodePtr n = mk(k, c, p), m = n->nextNode(v);
      out()(J("edge").s("kind", k).arr("c", c3(c)).arr("p", c3(p)).arr("v", c3(v)).i("r", risk8(gp->getRisk(*m))).b("legal", gp->isLegal(*m)).f("cost", gp->getEdgeCost(*n, *m), 1e4));
    } else if (op == "heur") {  // kind cell parent goal over
      std::string k = a.s();
      Cell c = cell(a), p = cell(a), t = cell(a);
      gp->overestimate_factor_ = a.i() / 100.0;
      out()(J("heur").s("kind", k).arr("c", c3(c)).arr("t", c3(t)).f("h", gp->getHeuristic(*mk(k, c, p), t), 1e4));
    } else if (op == "search") {  // kind start parent over iters lo hi
      std::string k = a.s();
      Cell c = cell(a), p = cell(a);
      long ov = a.i(), it = a.i();
      Cell lo = cell(a), hi = cell(a);
      gp->overestimate_factor_ = ov / 100.0;
      std::vector<Cell> path;
      auto i = findSmoothPath(gp.get(), path, mk(k, c, p), gp->goal_pos_, it, gp->visitor_);
      auto info = gp->getPathInfo(path);
      out()(J("search").s("kind", k).arr("c", c3(c)).arr("p", c3(p)).i("over", ov).i("iters", it).arr("lo", c3(lo)).arr("hi", c3(hi)).b("found", i.found_path).i("n", i.num_iter).raw("path", list(path)).f("cost", info.cost, 1e4));
    } else if (op == "plan") {  // lo hi
      Cell lo = cell(a), hi = cell(a);
      int it = gp->max_iterations_;
      bool ok = gp->getGlobalPath();
      out()(J("plan").arr("lo", c3(lo)).arr("hi", c3(hi)).b("ok", ok).b("blocked", gp->goal_is_blocked_).b("here", gp->current_cell_blocked_).raw("path", list(gp->curr_path_)).f("over", gp->overestimate_factor_, 1e4).b("kept", it == gp->max_iterations_).arr("g", c3(gp->goal_pos_)));
    } else if (op == "info") {  // path
      auto p = cells(a);
      auto i = gp->getPathInfo(p);
      gp->curr_path_ = p;
      auto m = gp->getPathMsg();
      auto rm = gp->getPathWithRiskMsg();
      std::vector<long> pos, rk, yaw;
      for (auto& x : m.poses) { pos.push_back(fx(x.pose.position.x, 8)); pos.push_back(fx(x.pose.position.y, 8)); pos.push_back(fx(x.pose.position.z, 8)); yaw.push_back(fx(tf::getYaw(x.pose.orientation), 1e4)); }
      for (auto x : rm.risks) rk.push_back(risk8(x));
      out()(J("info").raw("path", list(p)).f("cost", i.cost, 1e4).f("dist", i.dist, 1e4).f("risk", i.risk, 1e4).f("smooth", i.smoothness, 1e4).b("blocked", i.is_blocked).arr("pos", pos).arr("yaw", yaw).arr("risks", rk));
    } else if (op == "simplify") {  // margin(1/1000) rounds end path
      long mg = a.i(), it = a.i(), de = a.i();
      auto p = cells(a);
      auto r = simplifyPath(gp.get(), p, mg / 1e3, it, de);
      out()(J("simplify").i("margin", mg).i("rounds", it).b("stop", de).raw("path", list(p)).raw("res", list(r)));
    } else if (op == "smooth") {  // path
      auto p = cells(a);
      nav_msgs::Path m = gp->getPathMsg(p);
      auto r = smoothPath(m);
      std::vector<std::string> o;
      for (auto& x : r.poses) o.push_back("[" + std::to_string(fx(x.pose.position.x, 1e4)) + "," + std::to_string(fx(x.pose.position.y, 1e4)) + "," + std::to_string(fx(x.pose.position.z, 1e4)) + "]");
      out()(J("smooth").i("s", S).raw("path", list(p)).raw("res", jlist(o)));
    }
  });
}
