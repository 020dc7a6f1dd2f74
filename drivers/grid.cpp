// Drives two real landing grids.
#include "drv.h"
#include <memory>
#include <safe_landing_planner/grid.hpp>
using namespace drv;
using avoidance::Grid;
static std::unique_ptr<Grid> g[3];
static bool limited[3];
template <class M> static std::string sparse(const M& m, double scale) {
  std::vector<std::string> o;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) if (m(i, j) != 0)
    o.push_back("[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(fx(m(i, j), scale)) + "]");
  return jlist(o);
}
static std::vector<long> lim(int k) {
  if (!limited[k]) return {0, 0, 0, 0};
  Eigen::Vector2f a, b; g[k]->getGridLimits(a, b);
  return {fx(a.x()), fx(a.y()), fx(b.x()), fx(b.y())};
}
int main(int argc, char** argv) {
  return run(argc, argv, [] { for (int k = 1; k < 3; k++) { g[k].reset(new Grid(1.f, 1.f)); limited[k] = false; } }, [](const std::string& op, Args& a) {
    int k = a.i();
    J j(op); j.i("k", k);
    if (op == "make" || op == "resize") {
      long s = a.i(), c = a.i();
      if (op == "make") { bool w = limited[k]; Eigen::Vector2f x, y; g[k].reset(new Grid(s / 1000.f, c / 1000.f)); limited[k] = false; (void)w; }
      else g[k]->resize(s / 1000.f, c / 1000.f);
      j.i("size", s).i("cell", c);
    } else if (op == "reset") g[k]->reset();
    else if (op == "mean" || op == "var" || op == "cnt" || op == "land" || op == "inc") {
      int x = a.i(), y = a.i(); long v = op == "inc" ? 0 : a.i();
      Eigen::Vector2i c(x, y);
      if (op == "mean") g[k]->setMean(c, v / 1000.f);
      if (op == "var") g[k]->setVariance(c, v / 1000.f);
      if (op == "cnt") g[k]->setCounter(c, v);
      if (op == "inc") g[k]->increaseCounter(c);
      if (op == "land") g[k]->land_(x, y) = v;
      j.i("x", x).i("y", y).i("v", v);
    } else if (op == "limits") {
      long x = a.i(), y = a.i();
      g[k]->setFilterLimits(Eigen::Vector3f(x / 1000.f, y / 1000.f, 77.f));
      limited[k] = true;
      j.i("x", x).i("y", y).arr("lim", lim(k));
    } else if (op == "combine") { long w = a.i(); g[k]->combine(*g[3 - k], w / 4.f); j.i("w", w); }
    else if (op == "dump") {
      Eigen::MatrixXf m = g[k]->getMean(), v = g[k]->getVariance();
      Eigen::MatrixXi c = g[k]->getCounter();
      bool same = true;
      for (int x = 0; x < m.rows(); x++) for (int y = 0; y < m.cols(); y++) { Eigen::Vector2i q(x, y); same = same && g[k]->getMean(q) == m(x, y) && g[k]->mean_(x, y) == m(x, y) && g[k]->getVariance(q) == v(x, y) && g[k]->getCounter(q) == c(x, y); }
      j.i("n", same ? g[k]->getRowColSize() : -1).arr("shape", {m.rows(), m.cols(), v.rows(), (long)g[k]->land_.cols()})
          .f("size", g[k]->getGridSize()).f("cell", g[k]->getCellSize())
          .raw("mean", sparse(m, 1000)).raw("var", sparse(v, 1000)).raw("cnt", sparse(c, 1)).raw("land", sparse(g[k]->land_, 1)).arr("lim", lim(k));
    }
    out()(j);
  });
}
