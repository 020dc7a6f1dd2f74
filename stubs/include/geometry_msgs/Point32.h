#pragma once
#include <rosstub/core.h>
namespace geometry_msgs {
struct Point32 {
  float x = 0;
  float y = 0;
  float z = 0;
  typedef boost::shared_ptr<Point32> Ptr;
  typedef boost::shared_ptr<Point32 const> ConstPtr;
};
typedef boost::shared_ptr<Point32> Point32Ptr;
typedef boost::shared_ptr<Point32 const> Point32ConstPtr;
}
