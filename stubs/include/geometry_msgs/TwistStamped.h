#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Twist.h>
namespace geometry_msgs {
struct TwistStamped {
  std_msgs::Header header;
  geometry_msgs::Twist twist;
  typedef boost::shared_ptr<TwistStamped> Ptr;
  typedef boost::shared_ptr<TwistStamped const> ConstPtr;
};
typedef boost::shared_ptr<TwistStamped> TwistStampedPtr;
typedef boost::shared_ptr<TwistStamped const> TwistStampedConstPtr;
}
