#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Point.h>
namespace geometry_msgs {
struct PointStamped {
  std_msgs::Header header;
  geometry_msgs::Point point;
  typedef boost::shared_ptr<PointStamped> Ptr;
  typedef boost::shared_ptr<PointStamped const> ConstPtr;
};
typedef boost::shared_ptr<PointStamped> PointStampedPtr;
typedef boost::shared_ptr<PointStamped const> PointStampedConstPtr;
}
