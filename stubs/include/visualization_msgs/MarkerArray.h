#pragma once
#include <rosstub/core.h>
#include <visualization_msgs/Marker.h>
namespace visualization_msgs {
struct MarkerArray {
  std::vector<visualization_msgs::Marker> markers;
  typedef boost::shared_ptr<MarkerArray> Ptr;
  typedef boost::shared_ptr<MarkerArray const> ConstPtr;
};
typedef boost::shared_ptr<MarkerArray> MarkerArrayPtr;
typedef boost::shared_ptr<MarkerArray const> MarkerArrayConstPtr;
}
