#pragma once
#include <cmath>
#include <cstdint>
#include <ostream>
#include <Eigen/Core>
namespace pcl {
struct PointXYZ {
  union { float data[4]; struct { float x, y, z; }; };
  PointXYZ() { data[0] = data[1] = data[2] = 0.f; data[3] = 1.f; }
  PointXYZ(float x_, float y_, float z_) { x = x_; y = y_; z = z_; data[3] = 1.f; }
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
};
struct PointXYZI {
  union { float data[4]; struct { float x, y, z; }; };
  float intensity;
  PointXYZI() : intensity(0.f) { data[0] = data[1] = data[2] = 0.f; data[3] = 1.f; }
  explicit PointXYZI(float i) : intensity(i) { data[0] = data[1] = data[2] = 0.f; data[3] = 1.f; }
  PointXYZI(float x_, float y_, float z_, float i = 0.f) : intensity(i) { x = x_; y = y_; z = z_; data[3] = 1.f; }
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
};
template <class P> inline bool isFinite(const P& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
}
