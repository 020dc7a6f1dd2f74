#pragma once
#include <rosstub/core.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct Transform {
  geometry_msgs::Vector3 translation;
  geometry_msgs::Quaternion rotation;
  typedef boost::shared_ptr<Transform> Ptr;
  typedef boost::shared_ptr<Transform const> ConstPtr;
};
typedef boost::shared_ptr<Transform> TransformPtr;
typedef boost::shared_ptr<Transform const> TransformConstPtr;
}
