#pragma once
#include <rosstub/core.h>
#include <mavros_msgs/Waypoint.h>
namespace mavros_msgs {
struct WaypointList {
  uint16_t current_seq = 0;
  std::vector<mavros_msgs::Waypoint> waypoints;
  typedef boost::shared_ptr<WaypointList> Ptr;
  typedef boost::shared_ptr<WaypointList const> ConstPtr;
};
typedef boost::shared_ptr<WaypointList> WaypointListPtr;
typedef boost::shared_ptr<WaypointList const> WaypointListConstPtr;
}
