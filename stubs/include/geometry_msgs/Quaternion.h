#pragma once
#include <rosstub/core.h>
namespace geometry_msgs {
struct Quaternion {
  double x = 0;
  double y = 0;
  double z = 0;
  double w = 0;
  typedef boost::shared_ptr<Quaternion> Ptr;
  typedef boost::shared_ptr<Quaternion const> ConstPtr;
};
typedef boost::shared_ptr<Quaternion> QuaternionPtr;
typedef boost::shared_ptr<Quaternion const> QuaternionConstPtr;
}
