#pragma once
#include <rosstub/core.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Twist {
  geometry_msgs::Vector3 linear;
  geometry_msgs::Vector3 angular;
  typedef boost::shared_ptr<Twist> Ptr;
  typedef boost::shared_ptr<Twist const> ConstPtr;
};
typedef boost::shared_ptr<Twist> TwistPtr;
typedef boost::shared_ptr<Twist const> TwistConstPtr;
}
