#pragma once
#include <rosstub/core.h>
namespace geometry_msgs {
struct Point {
  double x = 0;
  double y = 0;
  double z = 0;
  typedef boost::shared_ptr<Point> Ptr;
  typedef boost::shared_ptr<Point const> ConstPtr;
};
typedef boost::shared_ptr<Point> PointPtr;
typedef boost::shared_ptr<Point const> PointConstPtr;
}
