#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Vector3Stamped {
  std_msgs::Header header;
  geometry_msgs::Vector3 vector;
  typedef boost::shared_ptr<Vector3Stamped> Ptr;
  typedef boost::shared_ptr<Vector3Stamped const> ConstPtr;
};
typedef boost::shared_ptr<Vector3Stamped> Vector3StampedPtr;
typedef boost::shared_ptr<Vector3Stamped const> Vector3StampedConstPtr;
}
