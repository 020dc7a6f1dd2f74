#pragma once
#include <rosstub/core.h>
namespace geometry_msgs {
struct Vector3 {
  double x = 0;
  double y = 0;
  double z = 0;
  typedef boost::shared_ptr<Vector3> Ptr;
  typedef boost::shared_ptr<Vector3 const> ConstPtr;
};
typedef boost::shared_ptr<Vector3> Vector3Ptr;
typedef boost::shared_ptr<Vector3 const> Vector3ConstPtr;
}
