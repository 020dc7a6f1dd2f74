#pragma once
#include <rosstub/core.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <geometry_msgs/TwistStamped.h>
typedef double tfScalar;
namespace tf {
class Vector3 {
 public:
  double m[4];
  Vector3() : m{0, 0, 0, 0} {}
  Vector3(double x, double y, double z) : m{x, y, z, 0} {}
  double x() const { return m[0]; } double y() const { return m[1]; } double z() const { return m[2]; }
  double getX() const { return m[0]; } double getY() const { return m[1]; } double getZ() const { return m[2]; }
  void setX(double v) { m[0] = v; } void setY(double v) { m[1] = v; } void setZ(double v) { m[2] = v; }
  void setValue(double x, double y, double z) { m[0] = x; m[1] = y; m[2] = z; }
  double operator[](int i) const { return m[i]; }
  double& operator[](int i) { return m[i]; }
  Vector3 operator+(const Vector3& o) const { return {m[0] + o.m[0], m[1] + o.m[1], m[2] + o.m[2]}; }
  Vector3 operator-(const Vector3& o) const { return {m[0] - o.m[0], m[1] - o.m[1], m[2] - o.m[2]}; }
  Vector3 operator-() const { return {-m[0], -m[1], -m[2]}; }
  Vector3 operator*(double s) const { return {m[0] * s, m[1] * s, m[2] * s}; }
  Vector3 operator*(const Vector3& o) const { return {m[0] * o.m[0], m[1] * o.m[1], m[2] * o.m[2]}; }
  Vector3 operator/(double s) const { return {m[0] / s, m[1] / s, m[2] / s}; }
  Vector3& operator+=(const Vector3& o) { m[0] += o.m[0]; m[1] += o.m[1]; m[2] += o.m[2]; return *this; }
  Vector3& operator-=(const Vector3& o) { m[0] -= o.m[0]; m[1] -= o.m[1]; m[2] -= o.m[2]; return *this; }
  Vector3& operator*=(double s) { m[0] *= s; m[1] *= s; m[2] *= s; return *this; }
  Vector3& operator/=(double s) { m[0] /= s; m[1] /= s; m[2] /= s; return *this; }
  bool operator==(const Vector3& o) const { return m[0] == o.m[0] && m[1] == o.m[1] && m[2] == o.m[2]; }
  bool operator!=(const Vector3& o) const { return !(*this == o); }
  double dot(const Vector3& o) const { return m[0] * o.m[0] + m[1] * o.m[1] + m[2] * o.m[2]; }
  Vector3 cross(const Vector3& o) const { return {m[1] * o.m[2] - m[2] * o.m[1], m[2] * o.m[0] - m[0] * o.m[2], m[0] * o.m[1] - m[1] * o.m[0]}; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  double distance(const Vector3& o) const { return (*this - o).length(); }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { return *this / length(); }
  Vector3 lerp(const Vector3& o, double t) const { return *this + (o - *this) * t; }
};
inline Vector3 operator*(double s, const Vector3& v) { return v * s; }
typedef Vector3 Point;
class Quaternion {
 public:
  double q[4];
  Quaternion() : q{0, 0, 0, 0} {}  // uninitialised in the real one
  Quaternion(double x, double y, double z, double w) : q{x, y, z, w} {}
  Quaternion(const Vector3& axis, double angle) { setRotation(axis, angle); }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setValue(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  void setRotation(const Vector3& axis, double angle) { double d = axis.length(); double s = std::sin(angle * 0.5) / d; setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5)); }
  void setRPY(double roll, double pitch, double yaw) {
    double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    double cy = cos(hy), sy = sin(hy), cp = cos(hp), sp = sin(hp), cr = cos(hr), sr = sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion& o) const { return q[0] * o.q[0] + q[1] * o.q[1] + q[2] * o.q[2] + q[3] * o.q[3]; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion& normalize() { double l = length(); for (double& v : q) v /= l; return *this; }
  Quaternion normalized() const { Quaternion r = *this; r.normalize(); return r; }
  Quaternion inverse() const { return {-q[0], -q[1], -q[2], q[3]}; }
  Quaternion operator-() const { return {-q[0], -q[1], -q[2], -q[3]}; }
  Quaternion operator+(const Quaternion& o) const { return {q[0] + o.q[0], q[1] + o.q[1], q[2] + o.q[2], q[3] + o.q[3]}; }
  Quaternion operator*(double s) const { return {q[0] * s, q[1] * s, q[2] * s, q[3] * s}; }
  Quaternion operator*(const Quaternion& b) const {
    const Quaternion& a = *this;
    return {a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() + a.y() * b.w() + a.z() * b.x() - a.x() * b.z(),
            a.w() * b.z() + a.z() * b.w() + a.x() * b.y() - a.y() * b.x(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z()};
  }
  double angleShortestPath(const Quaternion& o) const {
    double s = std::sqrt(length2() * o.length2());
    double d = dot(o);
    if (d < 0) d = -d;
    return std::acos(std::min(1.0, d / s)) * 2.0;
  }
  double getAngle() const { return 2. * std::acos(std::max(-1.0, std::min(1.0, q[3]))); }
  Quaternion slerp(const Quaternion& o, double t) const {
    double theta = angleShortestPath(o) / 2.0;
    if (theta != 0.0) {
      double d = 1.0 / std::sin(theta), s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      double sg = dot(o) < 0 ? -1.0 : 1.0;
      return {(q[0] * s0 + sg * o.q[0] * s1) * d, (q[1] * s0 + sg * o.q[1] * s1) * d, (q[2] * s0 + sg * o.q[2] * s1) * d, (q[3] * s0 + sg * o.q[3] * s1) * d};
    }
    return *this;
  }
  static Quaternion getIdentity() { return {0, 0, 0, 1}; }
};
class Matrix3x3 {
 public:
  Vector3 r[3];
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  const Vector3& operator[](int i) const { return r[i]; }
  Vector3& operator[](int i) { return r[i]; }
  const Vector3& getRow(int i) const { return r[i]; }
  void setRotation(const Quaternion& q) {
    double d = q.length2(), s = 2.0 / d;
    double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys,
           xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    r[0].setValue(1.0 - (yy + zz), xy - wz, xz + wy);
    r[1].setValue(xy + wz, 1.0 - (xx + zz), yz - wx);
    r[2].setValue(xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void setIdentity() { r[0].setValue(1, 0, 0); r[1].setValue(0, 1, 0); r[2].setValue(0, 0, 1); }
  void getRotation(Quaternion& q) const {
    double trace = r[0].x() + r[1].y() + r[2].z();
    double t[4];
    if (trace > 0.0) {
      double s = std::sqrt(trace + 1.0);
      t[3] = s * 0.5; s = 0.5 / s;
      t[0] = (r[2].y() - r[1].z()) * s; t[1] = (r[0].z() - r[2].x()) * s; t[2] = (r[1].x() - r[0].y()) * s;
    } else {
      int i = r[0].x() < r[1].y() ? (r[1].y() < r[2].z() ? 2 : 1) : (r[0].x() < r[2].z() ? 2 : 0);
      int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(r[i][i] - r[j][j] - r[k][k] + 1.0);
      t[i] = s * 0.5; s = 0.5 / s;
      t[3] = (r[k][j] - r[j][k]) * s; t[j] = (r[j][i] + r[i][j]) * s; t[k] = (r[k][i] + r[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getRPY(double& roll, double& pitch, double& yaw, unsigned = 1) const {
    if (std::fabs(r[2].x()) >= 1) {
      yaw = 0;
      double delta = std::atan2(r[2].y(), r[2].z());
      if (r[2].x() < 0) { pitch = M_PI / 2.0; roll = delta; } else { pitch = -M_PI / 2.0; roll = delta; }
    } else {
      pitch = -std::asin(r[2].x());
      roll = std::atan2(r[2].y() / std::cos(pitch), r[2].z() / std::cos(pitch));
      yaw = std::atan2(r[1].x() / std::cos(pitch), r[0].x() / std::cos(pitch));
    }
  }
  void getEulerYPR(double& y, double& p, double& ro, unsigned = 1) const { getRPY(ro, p, y); }
  void setRPY(double ro, double p, double y) { Quaternion q; q.setRPY(ro, p, y); setRotation(q); }
  Matrix3x3 transpose() const { Matrix3x3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.r[i][j] = r[j][i]; return m; }
  Matrix3x3 inverse() const { return transpose(); }
  Vector3 operator*(const Vector3& v) const { return {r[0].dot(v), r[1].dot(v), r[2].dot(v)}; }
  Matrix3x3 operator*(const Matrix3x3& o) const {
    Matrix3x3 m; Matrix3x3 t = o.transpose();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.r[i][j] = r[i].dot(t.r[j]);
    return m;
  }
};
class Transform {
 protected:
  Matrix3x3 b_;
  Vector3 o_;
 public:
  Transform() { b_.setIdentity(); }  // uninitialised in the real one
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3()) : b_(q), o_(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3()) : b_(b), o_(c) {}
  void setIdentity() { b_.setIdentity(); o_ = Vector3(); }
  static const Transform& getIdentity() { static Transform t; return t; }
  const Matrix3x3& getBasis() const { return b_; }
  Matrix3x3& getBasis() { return b_; }
  const Vector3& getOrigin() const { return o_; }
  Vector3& getOrigin() { return o_; }
  Quaternion getRotation() const { Quaternion q; b_.getRotation(q); return q; }
  void setOrigin(const Vector3& o) { o_ = o; }
  void setBasis(const Matrix3x3& b) { b_ = b; }
  void setRotation(const Quaternion& q) { b_.setRotation(q); }
  Vector3 operator()(const Vector3& v) const { return b_ * v + o_; }
  Vector3 operator*(const Vector3& v) const { return b_ * v + o_; }
  Transform operator*(const Transform& t) const { return Transform(b_ * t.b_, (*this)(t.o_)); }
  Transform inverse() const { Matrix3x3 i = b_.transpose(); return Transform(i, i * -o_); }
};
typedef Transform Pose;
class StampedTransform : public Transform {
 public:
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform& t) { *static_cast<Transform*>(this) = t; }
};
template <class T>
class Stamped : public T {
 public:
  ros::Time stamp_;
  std::string frame_id_;
  Stamped() {}
  Stamped(const T& t, const ros::Time& s, const std::string& f) : T(t), stamp_(s), frame_id_(f) {}
};
class TransformException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
}
namespace rosstub {
// The harness' tf tree: newest transform per "target<-source"; lookups at time t succeed if a
// transform with stamp >= t is there (Time(0) = newest).
struct TfStore {
  std::recursive_mutex m;   // recursive: not a scheduling point
  std::map<std::string, std::vector<tf::StampedTransform>> t;
  std::function<void(const std::string&, const std::string&)> onLookup;
  static std::string key(const std::string& target, const std::string& source) { return canon(target) + "<-" + canon(source); }
  void set(const std::string& target, const std::string& source, const tf::StampedTransform& s) {
    std::lock_guard<std::recursive_mutex> l(m);
    t[key(target, source)].push_back(s);
    auto& v = t[key(target, source)];
    if (v.size() > 100) v.erase(v.begin());
  }
  void clear() { std::lock_guard<std::recursive_mutex> l(m); t.clear(); }
  bool get(const std::string& target, const std::string& source, const ros::Time& at, tf::StampedTransform& out) {
    if (onLookup) onLookup(target, source);
    std::lock_guard<std::recursive_mutex> l(m);
    if (canon(target) == canon(source)) { out = tf::StampedTransform(tf::Transform(), at, target, source); return true; }
    auto it = t.find(key(target, source));
    if (it == t.end() || it->second.empty()) return false;
    auto& v = it->second;
    if (at.isZero()) { out = v.back(); return true; }
    if (v.back().stamp_ < at || v.front().stamp_ > at) return false;
    for (size_t i = v.size(); i-- > 0;) if (v[i].stamp_ <= at) { out = v[i]; out.stamp_ = at; return true; }
    return false;
  }
};
inline TfStore& tfStore() { static TfStore* s = new TfStore; return *s; }
}
namespace tf {
inline double getYaw(const Quaternion& q) { double r, p, y; Matrix3x3(q).getRPY(r, p, y); return y; }
inline double getYaw(const geometry_msgs::Quaternion& q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
inline Quaternion createQuaternionFromYaw(double y) { Quaternion q; q.setRPY(0, 0, y); return q; }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline void quaternionTFToMsg(const Quaternion& t, geometry_msgs::Quaternion& m) { m.x = t.x(); m.y = t.y(); m.z = t.z(); m.w = t.w(); }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion& m, Quaternion& t) { t = Quaternion(m.x, m.y, m.z, m.w); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromYaw(y), m); return m; }
inline geometry_msgs::Quaternion createQuaternionMsgFromRollPitchYaw(double r, double p, double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromRPY(r, p, y), m); return m; }
inline void pointMsgToTF(const geometry_msgs::Point& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void pointTFToMsg(const Vector3& v, geometry_msgs::Point& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void vector3MsgToTF(const geometry_msgs::Vector3& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void vector3TFToMsg(const Vector3& v, geometry_msgs::Vector3& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
class Transformer {
 public:
  enum { DEFAULT_CACHE_TIME = 10 };
  Transformer(bool = true, ros::Duration = ros::Duration(10.0)) {}
  virtual ~Transformer() {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* = nullptr) const { StampedTransform s; return rosstub::tfStore().get(target, source, t, s); }
  bool waitForTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration&, const ros::Duration& = ros::Duration(0.01), std::string* = nullptr) const { return canTransform(target, source, t); }
  void lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, StampedTransform& out) const {
    if (!rosstub::tfStore().get(target, source, t, out)) throw LookupException("no transform " + target + " <- " + source);
  }
};
class TransformListener : public Transformer {
 public:
  TransformListener(ros::Duration = ros::Duration(10.0), bool = true) {}
  TransformListener(const ros::NodeHandle&, ros::Duration = ros::Duration(10.0), bool = true) {}
  void transformVector(const std::string& target, const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out) const { transformVector(target, ros::Time(0), in, "", out); }
  void transformVector(const std::string& target, const ros::Time& t, const geometry_msgs::Vector3Stamped& in, const std::string&, geometry_msgs::Vector3Stamped& out) const {
    StampedTransform s; lookupTransform(target, in.header.frame_id, t, s);
    Vector3 v = s.getBasis() * Vector3(in.vector.x, in.vector.y, in.vector.z);
    out = in; out.header.frame_id = target; out.vector.x = v.x(); out.vector.y = v.y(); out.vector.z = v.z();
  }
  void transformPoint(const std::string& target, const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out) const {
    StampedTransform s; lookupTransform(target, in.header.frame_id, in.header.stamp, s);
    Vector3 v = s * Vector3(in.point.x, in.point.y, in.point.z);
    out = in; out.header.frame_id = target; out.point.x = v.x(); out.point.y = v.y(); out.point.z = v.z();
  }
};
class TransformBroadcaster {
 public:
  void sendTransform(const StampedTransform& s) { rosstub::tfStore().set(s.frame_id_, s.child_frame_id_, s); }
};
}
