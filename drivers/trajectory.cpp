// Drives the trajectory simulator. Lengths, speeds, accelerations and jerks in 1/10000, times in microseconds.
#include "drv.h"
#include <local_planner/trajectory_simulator.h>
using namespace drv;
using namespace avoidance;
static Eigen::Vector3f vec(Args& a) { float x = a.i() / 1e4f, y = a.i() / 1e4f, z = a.i() / 1e4f; return Eigen::Vector3f(x, y, z); }
static std::vector<long> v4(const Eigen::Vector3f& v) { return {fx(v.x(), 1e4), fx(v.y(), 1e4), fx(v.z(), 1e4)}; }
int main(int argc, char** argv) {
  return run(argc, argv, [] {}, [](const std::string& op, Args& a) {
    if (op == "sim") {  // up down xy acc jerk step duration direction position velocity acceleration
      simulation_limits l;
      long up = a.i(), down = a.i(), xy = a.i(), acc = a.i(), jerk = a.i(), step = a.i(), dur = a.i();
      l.max_z_velocity = up / 1e4f; l.min_z_velocity = down / 1e4f; l.max_xy_velocity_norm = xy / 1e4f; l.max_acceleration_norm = acc / 1e4f; l.max_jerk_norm = jerk / 1e4f;
      Eigen::Vector3f dir = vec(a);
      simulation_state s;
      s.time = 0.f;
      s.position = vec(a); s.velocity = vec(a); s.acceleration = vec(a);
      TrajectorySimulator sim(l, s, step / 1e6f);
      auto r = sim.generate_trajectory(dir, dur / 1e6f);
      J lim;
      lim.i("up", up).i("down", down).i("xy", xy).i("acc", acc).i("jerk", jerk).i("step", step);
      out()(J("start").raw("lim", lim.str()).i("n", r.size()).i("dur", dur).arr("dir", v4(dir)).arr("p", v4(s.position)).arr("v", v4(s.velocity)).arr("a", v4(s.acceleration)));
      float last = s.time;
      for (auto& q : r) {
        out()(J("state").f("t", (double)q.time - last, 1e6).arr("p", v4(q.position)).arr("v", v4(q.velocity)).arr("a", v4(q.acceleration)));
        last = q.time;
      }
    }
  });
}
