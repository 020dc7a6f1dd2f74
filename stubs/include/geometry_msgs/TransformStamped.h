#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Transform.h>
namespace geometry_msgs {
struct TransformStamped {
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::Transform transform;
  typedef boost::shared_ptr<TransformStamped> Ptr;
  typedef boost::shared_ptr<TransformStamped const> ConstPtr;
};
typedef boost::shared_ptr<TransformStamped> TransformStampedPtr;
typedef boost::shared_ptr<TransformStamped const> TransformStampedConstPtr;
}
