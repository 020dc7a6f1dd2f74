// Drives the shared conversion, field-of-view and message helpers.
// Angles travel as 1/100 degree (rad helpers: 1/10000 rad), lengths as millimetres.
#include "drv.h"
#include <avoidance/common.h>
using namespace drv;
using namespace avoidance;
static float deg(long a) { return a / 100.0f; }
static Eigen::Vector3f vec(Args& a) { float x = a.i() / 1000.0f, y = a.i() / 1000.0f, z = a.i() / 1000.0f; return Eigen::Vector3f(x, y, z); }
static std::vector<long> mm(const Eigen::Vector3f& v) { return {fx(v.x()), fx(v.y()), fx(v.z())}; }
static double un(long v) { return v == NANV ? NAN : v == INFV ? INFINITY : v == -INFV ? -INFINITY : v / 1000.0; }
static std::string cams(const std::vector<FOV>& f) {
  std::vector<std::string> o;
  for (auto& c : f) o.push_back(J().f("y", c.yaw_deg, 100).f("p", c.pitch_deg, 100).f("h", c.h_fov_deg, 100).f("v", c.v_fov_deg, 100).str());
  return jlist(o);
}
static std::vector<FOV> readCams(Args& a) {
  int n = a.i();
  std::vector<FOV> f;
  for (int k = 0; k < n; k++) { float y = deg(a.i()), p = deg(a.i()), h = deg(a.i()), v = deg(a.i()); f.push_back(FOV(y, p, h, v)); }
  return f;
}
static std::string point(const mavros_msgs::PositionTarget& p) {
  return J().v3("pos", p.position.x, p.position.y, p.position.z).v3("vel", p.velocity.x, p.velocity.y, p.velocity.z)
      .v3("acc", p.acceleration_or_force.x, p.acceleration_or_force.y, p.acceleration_or_force.z)
      .f("yaw", p.yaw).f("rate", p.yaw_rate).str();
}
static std::string traj(const mavros_msgs::Trajectory& t) {
  std::vector<long> valid, hor;
  for (int k = 0; k < 5; k++) { valid.push_back(t.point_valid[k] ? 1 : 0); hor.push_back(fx(t.time_horizon[k])); }
  return J().i("type", t.type).raw("points", jlist({point(t.point_1), point(t.point_2), point(t.point_3), point(t.point_4), point(t.point_5)}))
      .arr("valid", valid).arr("horizon", hor).i("stamp", (int64_t)(t.header.stamp.toNSec() / 1000000)).str();
}
int main(int argc, char** argv) {
  rosstub::setNow(1000LL * 1000000000LL);
  return run(argc, argv, [] {}, [](const std::string& op, Args& a) {
    if (op == "hist2cart" || op == "fcu2cart") {
      long e = a.i(), z = a.i(), r = a.i();
      Eigen::Vector3f o = vec(a);
      PolarPoint p(deg(e), deg(z), r / 1000.0f);
      Eigen::Vector3f c = op == "hist2cart" ? polarHistogramToCartesian(p, o) : polarFCUToCartesian(p, o);
      out()(J(op).i("e", e).i("z", z).i("r", r).arr("o", mm(o)).arr("c", mm(c)));
    } else if (op == "cart2hist" || op == "cart2hist3" || op == "cart2fcu" || op == "cart2fcup") {
      Eigen::Vector3f c = vec(a), o = vec(a);
      PolarPoint p;
      if (op == "cart2hist") p = cartesianToPolarHistogram(c, o);
      else if (op == "cart2hist3") p = cartesianToPolarHistogram(c.x(), c.y(), c.z(), o);
      else if (op == "cart2fcu") p = cartesianToPolarFCU(c, o);
      else { o.setZero(); p = cartesianToPolarFCU(pcl::PointXYZ(c.x(), c.y(), c.z())); }
      bool fcu = op.substr(0, 8) == "cart2fcu";
      out()(J(fcu ? "cart2fcu" : "cart2hist").arr("c", mm(c)).arr("o", mm(o)).f("e", p.e, 100).f("z", p.z, 100).f("r", p.r));
    } else if (op == "ofbin") {
      int e = a.i(), z = a.i(), res = a.i(); long r = a.i();
      PolarPoint p = histogramIndexToPolar(e, z, res, r / 1000.0f);
      out()(J(op).i("ei", e).i("zi", z).i("res", res).i("rin", r).f("e", p.e, 100).f("z", p.z, 100).f("r", p.r));
    } else if (op == "tobin") {
      long e = a.i(), z = a.i(); int res = a.i();
      Eigen::Vector2i b = polarToHistogramIndex(PolarPoint(deg(e), deg(z), 3.0f), res);
      out()(J(op).i("e", e).i("z", z).i("res", res).i("x", b.x()).i("y", b.y()));
    } else if (op == "wrappolar") {
      long e = a.i(), z = a.i();
      PolarPoint p(deg(e), deg(z), 4.5f);
      wrapPolar(p);
      out()(J(op).i("e", e).i("z", z).f("oe", p.e, 100).f("oz", p.z, 100).f("r", p.r));
    } else if (op == "wrap180") {
      long v = a.i();
      out()(J(op).i("a", v).f("w", wrapAngleToPlusMinus180(deg(v)), 100));
    } else if (op == "wrappi") {
      long v = a.i();
      out()(J(op).i("a", v).f("w", wrapAngleToPlusMinusPI(v / 10000.0f), 10000));
    } else if (op == "angdiff" || op == "idxdiff") {
      long x = a.i(), y = a.i();
      out()(J(op).i("a", x).i("b", y).f("d", op == "angdiff" ? angleDifference(deg(x), deg(y)) : indexAngleDifference(deg(x), deg(y)), 100));
    } else if (op == "nextyaw") {
      Eigen::Vector3f u = vec(a), v = vec(a);
      out()(J(op).arr("u", mm(u)).arr("v", mm(v)).f("yaw", nextYaw(u, v) * 180.0 / M_PI, 100));
    } else if (op == "angvel") {
      long d = a.i(), c = a.i();
      out()(J(op).i("d", d).i("c", c).f("w", getAngularVelocity(d / 10000.0f, c / 10000.0f), 10000));
    } else if (op == "quat") {
      long y = a.i(), p = a.i(), r = a.i();
      Eigen::Quaterniond q = Eigen::AngleAxisd(y / 100.0 * M_PI / 180, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p / 100.0 * M_PI / 180, Eigen::Vector3d::UnitY()) *
                             Eigen::AngleAxisd(r / 100.0 * M_PI / 180, Eigen::Vector3d::UnitX());
      Eigen::Quaterniond q2 = quaternionFromRPY(Eigen::Vector3d(r / 100.0 * M_PI / 180, p / 100.0 * M_PI / 180, y / 100.0 * M_PI / 180));
      Eigen::Quaternionf f = q.cast<float>();
      out()(J(op).i("y", y).i("p", p).i("r", r).f("oy", getYawFromQuaternion(f), 100).f("op_", getPitchFromQuaternion(f), 100)
                .i("same", std::fabs(std::fabs(q.dot(q2)) - 1.0) < 1e-6 ? 1 : 0));
    } else if (op == "pose") {
      Eigen::Vector3f in = vec(a), o; long y = a.i();
      Eigen::Quaternionf q;
      createPoseMsg(o, q, in, deg(y) * DEG_TO_RAD);
      out()(J(op).arr("in", mm(in)).i("y", y).arr("o", mm(o)).f("oy", getYawFromQuaternion(q), 100).f("op_", getPitchFromQuaternion(q), 100));
    } else if (op == "frames") {
      Eigen::Vector3f v = vec(a); long y = a.i();
      out()(J(op).arr("v", mm(v)).i("y", y).arr("ned", mm(toNED(v))).arr("enu", mm(toENU(v)))
                .f("yned", yawToNEDdeg(deg(y)), 100).f("yenu", yawToENUdeg(deg(y)), 100)
                .f("ynedr", yawToNEDrad(deg(y) * DEG_TO_RAD) * 180 / M_PI, 100).f("yenur", yawToENUrad(deg(y) * DEG_TO_RAD) * 180 / M_PI, 100)
                .f("pned", pitchtoNED(deg(y)), 100).f("penu", pitchToENU(deg(y)), 100));
    } else if (op == "orient") {
      double y = a.i() / 100.0 * M_PI / 180, p = a.i() / 100.0 * M_PI / 180, r = a.i() / 100.0 * M_PI / 180;
      Eigen::Quaterniond q = Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX());
      auto axes = [](const Eigen::Quaterniond& g) {
        std::vector<std::string> o;
        for (int k = 0; k < 3; k++) { Eigen::Vector3d v = g * Eigen::Vector3d::Unit(k); std::string s = "["; for (int i = 0; i < 3; i++) s += (i ? "," : "") + std::to_string(fx(v[i], 10000)); o.push_back(s + "]"); }
        return jlist(o);
      };
      out()(J(op).raw("enu", axes(q)).raw("ned", axes(orientationToNED(q))).raw("back", axes(orientationToENU(orientationToNED(q)))));
    } else if (op == "dist2d") {
      long e1 = a.i(), z1 = a.i(), e2 = a.i(), z2 = a.i();
      out()(J(op).i("e1", e1).i("z1", z1).i("e2", e2).i("z2", z2).f("d", distance2DPolar(PolarPoint(deg(e1), deg(z1), 1.f), PolarPoint(deg(e2), deg(z2), 2.f)), 100));
    } else if (op == "maxima") {
      int n = a.i();
      pcl::PointCloud<pcl::PointXYZ> c;
      std::vector<std::string> in, o, m;
      auto js = [](const pcl::PointXYZ& p) { return "[" + std::to_string(fx(p.x)) + "," + std::to_string(fx(p.y)) + "," + std::to_string(fx(p.z)) + "]"; };
      c.header.frame_id = "cam";
      for (int k = 0; k < n; k++) { float x = un(a.i()), y = un(a.i()), z = un(a.i()); c.push_back(pcl::PointXYZ(x, y, z)); in.push_back(js(c.points.back())); }
      auto mx = removeNaNAndGetMaxima(c);
      for (auto& p : c.points) o.push_back(js(p));
      for (auto& p : mx.points) m.push_back(js(p));
      out()(J(op).raw("in", jlist(in)).raw("out", jlist(o)).raw("max", jlist(m)).i("w", c.width).i("h", c.height).b("dense", c.is_dense).s("frame", mx.header.frame_id));
    } else if (op == "fov") {
      auto f = readCams(a);
      long e = a.i(), z = a.i();
      PolarPoint p(deg(e), deg(z), 1.0f);
      int which = -7, edge = -7;
      bool w = isInWhichFOV(f, p, which), g = isOnEdgeOfFOV(f, p, edge);
      J j(op);
      j.raw("cams", cams(f)).i("e", e).i("z", z).b("inside", pointInsideFOV(f, p)).b("yaw", pointInsideYawFOV(f, p)).b("w", w).i("which", which)
          .b("g", g).i("edge", edge).f("scale", scaleToFOV(f, p), 10000);
      std::vector<long> one, oney;
      for (auto& c : f) { one.push_back(pointInsideFOV(c, p)); oney.push_back(pointInsideYawFOV(c, p)); }
      out()(j.arr("one", one).arr("oney", oney));
    } else if (op == "column") {
      auto f = readCams(a);
      int idx = a.i(); long yaw = a.i();
      Eigen::Vector3f pos = vec(a);
      std::vector<long> one;
      for (auto& c : f) one.push_back(histogramIndexYawInsideFOV(c, idx, pos, deg(yaw)));
      out()(J(op).raw("cams", cams(f)).i("idx", idx).i("yaw", yaw).b("in", histogramIndexYawInsideFOV(f, idx, pos, deg(yaw))).arr("one", one));
    } else if (op == "grow") {
      auto f = readCams(a);
      int n = a.i();
      pcl::PointCloud<pcl::PointXYZ> m;
      std::vector<std::string> dirs;
      for (int k = 0; k < n; k++) {
        long e = a.i(), z = a.i(), r = a.i();
        double E = e / 100.0 * M_PI / 180, Z = z / 100.0 * M_PI / 180, R = r / 1000.0;
        // flight-controller direction (elevation positive downwards)
        m.push_back(pcl::PointXYZ(R * cos(E) * cos(Z), R * cos(E) * sin(Z), -R * sin(E)));
        dirs.push_back("[" + std::to_string(e) + "," + std::to_string(z) + "]");
      }
      FOV g = f[0];
      updateFOVFromMaxima(g, m);
      out()(J(op).raw("cams", cams(f)).raw("dirs", jlist(dirs)).raw("after", cams({g})));
    } else if (op == "traj") {
      double v[6]; std::vector<long> in;
      for (double& x : v) { long q = a.i(); in.push_back(q); x = un(q); }
      long yaw = a.i(), rate = a.i();
      geometry_msgs::PoseStamped p; geometry_msgs::Twist t;
      p.pose.position.x = v[0]; p.pose.position.y = v[1]; p.pose.position.z = v[2];
      p.pose.orientation = tf::createQuaternionMsgFromYaw(yaw / 1000.0);
      t.linear.x = v[3]; t.linear.y = v[4]; t.linear.z = v[5]; t.angular.z = rate / 1000.0; t.angular.x = 0.3; t.angular.y = 0.2;
      mavros_msgs::Trajectory m;
      rosstub::advance(37000000LL);
      transformToTrajectory(m, p, t);
      out()(J(op).arr("in", in).i("yaw", yaw).i("rate", rate).raw("m", traj(m)).i("now", (int64_t)(rosstub::clock() / 1000000)));
    } else if (op == "bezier") {
      std::array<Eigen::Vector4d, 5> c; std::vector<std::string> in;
      for (auto& p : c) { std::string s = "["; for (int k = 0; k < 4; k++) { long q = a.i(); p[k] = q / 1000.0; s += (k ? "," : "") + std::to_string(q); } in.push_back(s + "]"); }
      long d = a.i();
      mavros_msgs::Trajectory m;
      transformToBezier(m, c, d / 1000.0);
      out()(J(op).raw("in", jlist(in)).i("dur", d).raw("m", traj(m)).i("now", (int64_t)(rosstub::clock() / 1000000)));
    }
  });
}
