// Drives the real landing planner: configuration, pose, clouds and recorded grids.
#include "drv.h"
#include <memory>
#include <safe_landing_planner/safe_landing_planner.hpp>
using namespace drv;
static std::unique_ptr<avoidance::SafeLandingPlanner> p;
template <class M> static std::vector<long> rm(const M& m, double scale) {
  std::vector<long> o;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.push_back(fx(m(i, j), scale));
  return o;
}
static void obs(J& j) {
  avoidance::Grid g = p->getGrid(), q = p->getPreviousGrid();
  j.i("n", g.getRowColSize()).arr("geo", {fx(g.getGridSize()), fx(g.getCellSize())})
      .arr("mean", rm(g.getMean(), 1e6)).arr("var", rm(g.getVariance(), 1e6)).arr("cnt", rm(g.getCounter(), 1))
      .arr("land", rm(g.land_, 1)).arr("pmean", rm(q.getMean(), 1e6)).arr("pcnt", rm(q.getCounter(), 1))
      .arr("pidx", {p->getPositionIndex().x(), p->getPositionIndex().y()});
}
int main(int argc, char** argv) {
  return run(argc, argv, [] { p.reset(new avoidance::SafeLandingPlanner()); }, [](const std::string& op, Args& a) {
    J j(op);
    if (op == "cfg") {
      auto c = safe_landing_planner::SafeLandingPlannerNodeConfig();
      long np = a.i(), sd = a.i(), sm = a.i(), md = a.i(), mx = a.i(), ml = a.i(), sz = a.i(), ce = a.i(), al = a.i();
      c.n_points_threshold = np; c.std_dev_threshold = sd / 1000.0; c.smoothing_size = sm; c.mean_diff_thr = md / 1000.0;
      c.max_n_mean_diff_cells = mx; c.min_n_land_cells = ml; c.grid_size = sz / 1000.0; c.cell_size = ce / 1000.0; c.alpha = al / 100.0;
      p->dynamicReconfigureSetParams(c, 1);
      j.i("npts", np).i("std", sd).i("smooth", sm).i("mdiff", md).i("maxdiff", mx).i("minland", ml).i("size", sz).i("cell", ce).i("alpha", al);
    } else if (op == "pose") {
      long x = a.i(), y = a.i(), z = a.i();
      p->setPose(Eigen::Vector3f(x / 1000.f, y / 1000.f, z / 1000.f), Eigen::Quaternionf(0.8f, 0.f, 0.6f, 0.f));
      j.arr("p", {x, y});
    } else if (op == "run") {        // run x y z bad ...   (x, y in half-millimetres; odd = one float towards zero from the next)
      p->play_rosbag_ = false;
      p->cloud_.points.clear();
      std::vector<std::string> pts;
      while (a.more()) {
        long x = a.i(), y = a.i(), z = a.i(), bad = a.i();
        auto conv = [](long h) {     // odd: the float just below h/2+0.0005 (above the even number below it)
          if (h % 2 == 0) return h / 2000.f;
          float up = (h + 1) / 2000.f;
          return std::nextafter(up, -1e9f);
        };
        pcl::PointXYZ q(conv(x), conv(y), z / 1000.f);
        if (bad == 1) q.x = NAN;
        if (bad == 2) q.y = NAN;
        if (bad == 3) q.z = NAN;
        p->cloud_.points.push_back(q);
        pts.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + std::to_string(bad ? 1 : 0) + "]");
      }
      p->cloud_.width = p->cloud_.points.size();
      p->cloud_.height = 1;
      p->runSafeLandingPlanner();
      j.raw("cloud", jlist(pts));
      obs(j);
    } else if (op == "raw") {        // raw size cell n  (mean std cnt)*n*n
      long sz = a.i(), ce = a.i(), n = a.i();
      safe_landing_planner::SLPGridMsg m;
      m.header.seq = 5; m.grid_size = sz / 1000.f; m.cell_size = ce / 1000.f;
      auto lay = [&](std_msgs::MultiArrayLayout& l) { l.dim.resize(2); l.dim[0].size = n; l.dim[1].size = n; l.dim[0].stride = n * n; l.dim[1].stride = n; };
      lay(m.mean.layout); lay(m.std_dev.layout); lay(m.counter.layout); lay(m.land.layout);
      std::vector<long> me, sd, cn;
      for (long k = 0; k < n * n; k++) { me.push_back(a.i()); sd.push_back(a.i()); cn.push_back(a.i()); }
      for (long k = 0; k < n * n; k++) { m.mean.data.push_back(me[k] / 1e6f); m.std_dev.data.push_back(sd[k] / 1e3f); m.counter.data.push_back(cn[k]); m.land.data.push_back(0); }
      p->raw_grid_ = m;
      p->play_rosbag_ = true;
      p->runSafeLandingPlanner();
      j.i("rsize", sz).i("rcell", ce).arr("rmean", me).arr("rstd", sd).arr("rcnt", cn);
      obs(j);
    }
    out()(j);
  });
}
