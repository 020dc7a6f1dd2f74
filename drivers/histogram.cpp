// Drives the real histogram.
#include "drv.h"
#include <memory>
#include <stdexcept>
#include <avoidance/histogram.h>
using namespace drv;
using avoidance::Histogram;
static_assert(avoidance::ALPHA_RES == 6, "the traces assume 6 degree bins");
int main(int argc, char** argv) {
  static std::unique_ptr<Histogram> h;
  static int res = 6;
  return run(argc, argv, [] { res = 6; h.reset(new Histogram(res)); }, [](const std::string& op, Args& a) {
    if (op == "create") { res = a.i(); h.reset(new Histogram(res)); out()(J("create").i("res", res)); }
    else if (op == "set") {
      int e = a.i(), z = a.i(); long v = a.i();
      h->set_dist(e, z, v / 1000.0f);
      out()(J("set").i("e", e).i("z", z).i("v", v));
    } else if (op == "zero") { h->setZero(); out()(J("zero")); }
    else if (op == "down" || op == "up") {
      bool refused = false;
      try { if (op == "down") h->downsample(); else h->upsample(); } catch (const std::logic_error&) { refused = true; }
      if (!refused) res = op == "down" ? res * 2 : res / 2;
      out()(J(op).b("refused", refused));
    } else if (op == "get") {
      int e = a.i(), z = a.i();
      out()(J("get").i("e", e).i("z", z).f("v", h->get_dist(e, z)));
    } else if (op == "dump") {
      std::vector<std::string> c;
      for (int e = 0; e < 180 / res; e++) for (int z = 0; z < 360 / res; z++) {
        float v = h->get_dist(e, z);
        if (v != 0) c.push_back("[" + std::to_string(e) + "," + std::to_string(z) + "," + std::to_string(fx(v)) + "]");
      }
      out()(J("dump").b("empty", h->isEmpty()).raw("cells", jlist(c)));
    }
  });
}
