#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <mavros_msgs/PositionTarget.h>
namespace mavros_msgs {
struct Trajectory {
  enum : uint8_t { MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS = 0 };
  enum : uint8_t { MAV_TRAJECTORY_REPRESENTATION_BEZIER = 1 };
  std_msgs::Header header;
  uint8_t type = 0;
  mavros_msgs::PositionTarget point_1;
  mavros_msgs::PositionTarget point_2;
  mavros_msgs::PositionTarget point_3;
  mavros_msgs::PositionTarget point_4;
  mavros_msgs::PositionTarget point_5;
  std::array<uint8_t, 5> point_valid{};
  std::array<uint16_t, 5> command{};
  std::array<float, 5> time_horizon{};
  typedef boost::shared_ptr<Trajectory> Ptr;
  typedef boost::shared_ptr<Trajectory const> ConstPtr;
};
typedef boost::shared_ptr<Trajectory> TrajectoryPtr;
typedef boost::shared_ptr<Trajectory const> TrajectoryConstPtr;
}
