#pragma once
#include <rosstub/core.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct Pose {
  geometry_msgs::Point position;
  geometry_msgs::Quaternion orientation;
  typedef boost::shared_ptr<Pose> Ptr;
  typedef boost::shared_ptr<Pose const> ConstPtr;
};
typedef boost::shared_ptr<Pose> PosePtr;
typedef boost::shared_ptr<Pose const> PoseConstPtr;
}
