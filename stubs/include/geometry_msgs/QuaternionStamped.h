#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct QuaternionStamped {
  std_msgs::Header header;
  geometry_msgs::Quaternion quaternion;
  typedef boost::shared_ptr<QuaternionStamped> Ptr;
  typedef boost::shared_ptr<QuaternionStamped const> ConstPtr;
};
typedef boost::shared_ptr<QuaternionStamped> QuaternionStampedPtr;
typedef boost::shared_ptr<QuaternionStamped const> QuaternionStampedConstPtr;
}
