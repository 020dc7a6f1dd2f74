#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseStamped {
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  typedef boost::shared_ptr<PoseStamped> Ptr;
  typedef boost::shared_ptr<PoseStamped const> ConstPtr;
};
typedef boost::shared_ptr<PoseStamped> PoseStampedPtr;
typedef boost::shared_ptr<PoseStamped const> PoseStampedConstPtr;
}
