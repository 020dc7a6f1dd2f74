#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <pcl/point_types.h>
namespace pcl {
struct PCLHeader { std::uint32_t seq = 0; std::uint64_t stamp = 0; std::string frame_id; };
typedef std::vector<int> Indices;
template <class PointT>
class PointCloud {
 public:
  typedef PointT PointType;
  typedef boost::shared_ptr<PointCloud<PointT>> Ptr;
  typedef boost::shared_ptr<const PointCloud<PointT>> ConstPtr;
  typedef typename std::vector<PointT>::iterator iterator;
  typedef typename std::vector<PointT>::const_iterator const_iterator;
  PCLHeader header;
  std::vector<PointT> points;
  std::uint32_t width = 0, height = 0;
  bool is_dense = true;
  PointCloud() {}
  PointCloud(std::uint32_t w, std::uint32_t h, const PointT& v = PointT()) : points(w * h, v), width(w), height(h) {}
  std::size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(std::size_t n) { points.reserve(n); }
  void resize(std::size_t n) { points.resize(n); if (width * height != n) { width = (std::uint32_t)n; height = 1; } }
  void clear() { points.clear(); width = 0; height = 0; }
  void push_back(const PointT& p) { points.push_back(p); width = (std::uint32_t)points.size(); height = 1; }
  template <class... A> void emplace_back(A&&... a) { push_back(PointT(std::forward<A>(a)...)); }
  iterator begin() { return points.begin(); } iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); } const_iterator end() const { return points.end(); }
  const_iterator cbegin() const { return points.begin(); } const_iterator cend() const { return points.end(); }
  iterator erase(iterator i) { auto r = points.erase(i); width = (std::uint32_t)points.size(); height = 1; return r; }
  iterator erase(iterator a, iterator b) { auto r = points.erase(a, b); width = (std::uint32_t)points.size(); height = 1; return r; }
  iterator insert(iterator i, const PointT& p) { auto r = points.insert(i, p); width = (std::uint32_t)points.size(); height = 1; return r; }
  template <class It> void insert(iterator i, It a, It b) { points.insert(i, a, b); width = (std::uint32_t)points.size(); height = 1; }
  PointT& operator[](std::size_t i) { return points[i]; } const PointT& operator[](std::size_t i) const { return points[i]; }
  PointT& at(std::size_t i) { return points.at(i); } const PointT& at(std::size_t i) const { return points.at(i); }
  PointT& front() { return points.front(); } const PointT& front() const { return points.front(); }
  PointT& back() { return points.back(); } const PointT& back() const { return points.back(); }
  void swap(PointCloud& o) { std::swap(header, o.header); points.swap(o.points); std::swap(width, o.width); std::swap(height, o.height); std::swap(is_dense, o.is_dense); }
  PointCloud& operator+=(const PointCloud& o) {
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = (std::uint32_t)points.size(); height = 1; is_dense = is_dense && o.is_dense;
    return *this;
  }
  PointCloud operator+(const PointCloud& o) const { PointCloud r = *this; r += o; return r; }
  Ptr makeShared() const { return boost::make_shared<PointCloud>(*this); }
};
}
