#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Vector3.h>
namespace mavros_msgs {
struct PositionTarget {
  std_msgs::Header header;
  enum : uint8_t { FRAME_LOCAL_NED = 1 };
  enum : uint16_t { IGNORE_PX = 1 };
  uint8_t coordinate_frame = 0;
  uint16_t type_mask = 0;
  geometry_msgs::Point position;
  geometry_msgs::Vector3 velocity;
  geometry_msgs::Vector3 acceleration_or_force;
  float yaw = 0;
  float yaw_rate = 0;
  typedef boost::shared_ptr<PositionTarget> Ptr;
  typedef boost::shared_ptr<PositionTarget const> ConstPtr;
};
typedef boost::shared_ptr<PositionTarget> PositionTargetPtr;
typedef boost::shared_ptr<PositionTarget const> PositionTargetConstPtr;
}
