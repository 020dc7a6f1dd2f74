#pragma once
#include <pcl/point_cloud.h>
namespace pcl {
template <class PointT>
void removeNaNFromPointCloud(const PointCloud<PointT>& in, PointCloud<PointT>& out, std::vector<int>& index) {
  std::vector<PointT> pts; index.clear();
  for (size_t i = 0; i < in.points.size(); ++i) if (isFinite(in.points[i])) { pts.push_back(in.points[i]); index.push_back((int)i); }
  if (&in != &out) out.header = in.header;
  out.points = pts; out.width = (std::uint32_t)pts.size(); out.height = 1; out.is_dense = true;
}
}
