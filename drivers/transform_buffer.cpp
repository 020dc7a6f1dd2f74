// Drives the real transform buffer.
#include "drv.h"
#include <memory>
#include <avoidance/transform_buffer.h>
using namespace drv;
using avoidance::tf_buffer::TransformBuffer;
static const char* SRC[] = {"cam0", "cam1", "base", "local", "cam0", "fcu"};
static const char* DST[] = {"local", "local", "local", "base", "base", "fcu"};
static tf::Vector3 axis(int p) {
  static const double A[6][3] = {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0.6, 0.8, 0}, {0, 0.6, -0.8}, {0.48, 0.6, 0.64}};
  return tf::Vector3(A[p][0], A[p][1], A[p][2]);
}
static ros::Time T(long ms) { ros::Time t; t.fromNSec((uint64_t)(100000000L + ms) * 1000000ULL); return t; }
int main(int argc, char** argv) {
  rosstub::setNow(1000LL * 1000000000LL);
  static std::unique_ptr<TransformBuffer> b;
  return run(argc, argv, [] { b.reset(); }, [](const std::string& op, Args& a) {
    if (op == "create") {
      long sz = a.i();
      b.reset(new TransformBuffer((sz % 250 ? sz + 0.4f : sz) / 1000.0f));  // exact where representable
      out()(J("create").i("size", sz));
    } else if (op == "insert") {
      int p = a.i(); long t = a.i(), x = a.i(), y = a.i(), z = a.i(), g = a.i();
      tf::StampedTransform s;
      s.stamp_ = T(t);
      s.setOrigin(tf::Vector3(x / 1000.0, y / 1000.0, z / 1000.0));
      s.setRotation(tf::Quaternion(axis(p), g / 100.0 * M_PI / 180.0));
      s.frame_id_ = SRC[p]; s.child_frame_id_ = DST[p];
      bool ok = b->insertTransform(SRC[p], DST[p], s);
      out()(J("insert").i("pair", p).i("t", t).i("x", x).i("y", y).i("z", z).i("a", g).b("ok", ok));
    } else if (op == "get") {
      int p = a.i(); long t = a.i();
      tf::StampedTransform s;
      s.stamp_ = T(-5);
      s.setOrigin(tf::Vector3(1e5, 1e5, 1e5));
      s.setRotation(tf::Quaternion(0, 0, 0, 1));
      bool ok = b->getTransform(SRC[p], DST[p], T(t), s);
      auto q = s.getRotation();
      auto o = s.getOrigin();
      tf::Vector3 ax = axis(p);
      double along = q.x() * ax.x() + q.y() * ax.y() + q.z() * ax.z();
      double g = 2.0 * std::atan2(along, q.w()) * 180.0 / M_PI;
      double off = std::sqrt(std::pow(q.x() - along * ax.x(), 2) + std::pow(q.y() - along * ax.y(), 2) + std::pow(q.z() - along * ax.z(), 2));
      off += std::fabs(along * along + q.w() * q.w() + 0.0 - 1.0) > 1e-3 ? 1.0 : 0.0;
      out()(J("get").i("pair", p).i("t", t).b("ok", ok).i("stamp", (int64_t)(s.stamp_.toNSec() / 1000000) - 100000000L)
                .f("x", o.x()).f("y", o.y()).f("z", o.z()).f("a", g, 100.0).i("off", (long)std::floor(off * 1e3)));
    }
  });
}
