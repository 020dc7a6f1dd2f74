#pragma once
#include <rosstub/tf_impl.h>
#include <pcl/point_cloud.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl_conversions {
inline ros::Time fromPCL(const std::uint64_t& s) { ros::Time t; t.fromNSec(s * 1000ull); return t; }
inline void fromPCL(const std::uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ull); }
inline std::uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline void toPCL(const ros::Time& t, std::uint64_t& s) { s = t.toNSec() / 1000ull; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) { std_msgs::Header r; r.seq = h.seq; r.stamp = fromPCL(h.stamp); r.frame_id = h.frame_id; return r; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader r; r.seq = h.seq; r.stamp = toPCL(h.stamp); r.frame_id = h.frame_id; return r; }
}
namespace rosstub {
inline void setf(pcl::PointXYZ&, float) {}
inline void setf(pcl::PointXYZI& p, float f) { p.intensity = f; }
inline float getf(const pcl::PointXYZ&) { return 0; }
inline float getf(const pcl::PointXYZI& p) { return p.intensity; }
inline void fieldList(sensor_msgs::PointCloud2& m) {
  const char* n[] = {"x", "y", "z", "intensity"};
  m.fields.clear();
  for (int i = 0; i < 4; i++) { sensor_msgs::PointField f; f.name = n[i]; f.offset = 4 * i; f.datatype = sensor_msgs::PointField::FLOAT32; f.count = 1; m.fields.push_back(f); }
  m.point_step = 16;
}
}
namespace pcl {
template <class T>
void toROSMsg(const PointCloud<T>& c, sensor_msgs::PointCloud2& m) {
  m.header = pcl_conversions::fromPCL(c.header);
  rosstub::fieldList(m);
  m.height = c.width == 0 && c.height == 0 ? 1 : c.height; m.width = c.width == 0 && c.height == 0 ? (uint32_t)c.size() : c.width;
  m.is_dense = c.is_dense; m.row_step = m.width * 16; m.data.resize(c.size() * 16);
  for (size_t i = 0; i < c.size(); ++i) { float f[4] = {c.points[i].x, c.points[i].y, c.points[i].z, rosstub::getf(c.points[i])}; std::memcpy(&m.data[16 * i], f, 16); }
}
template <class T>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<T>& c) {
  c.header = pcl_conversions::toPCL(m.header);
  c.width = m.width; c.height = m.height; c.is_dense = m.is_dense;
  size_t n = m.point_step ? m.data.size() / m.point_step : 0;
  c.points.assign(n, T());
  for (size_t i = 0; i < n; ++i) {
    float f[4] = {0, 0, 0, 0};
    std::memcpy(f, &m.data[m.point_step * i], std::min<size_t>(16, m.point_step));
    c.points[i].x = f[0]; c.points[i].y = f[1]; c.points[i].z = f[2]; rosstub::setf(c.points[i], f[3]);
  }
}
}
namespace pcl_ros {
template <class T>
void transformPointCloud(const pcl::PointCloud<T>& in, pcl::PointCloud<T>& out, const tf::Transform& t) {
  pcl::PointCloud<T> r = in;
  for (auto& p : r.points) {
    if (!in.is_dense && !pcl::isFinite(p)) continue;
    tf::Vector3 v = t * tf::Vector3(p.x, p.y, p.z);
    p.x = (float)v.x(); p.y = (float)v.y(); p.z = (float)v.z();
  }
  out = r;
}
template <class T>
bool transformPointCloud(const std::string& target, const pcl::PointCloud<T>& in, pcl::PointCloud<T>& out, const tf::TransformListener& l) {
  if (in.header.frame_id == target) { if (&in != &out) out = in; return true; }
  tf::StampedTransform t;
  try { l.lookupTransform(target, in.header.frame_id, pcl_conversions::fromPCL(in.header.stamp), t); } catch (tf::TransformException&) { return false; }
  transformPointCloud(in, out, t);
  out.header.frame_id = target;
  return true;
}
inline void transformPointCloud(const std::string& target, const tf::Transform& t, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out) {
  pcl::PointCloud<pcl::PointXYZI> c; pcl::fromROSMsg(in, c);
  c.is_dense = false; transformPointCloud(c, c, t);
  auto h = in.header; pcl::toROSMsg(c, out); out.header = h; out.header.frame_id = target;
}
}
