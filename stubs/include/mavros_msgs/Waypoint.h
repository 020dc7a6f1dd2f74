#pragma once
#include <rosstub/core.h>
namespace mavros_msgs {
struct Waypoint {
  uint8_t frame = 0;
  uint16_t command = 0;
  uint8_t is_current = 0;
  uint8_t autocontinue = 0;
  float param1 = 0;
  float param2 = 0;
  float param3 = 0;
  float param4 = 0;
  double x_lat = 0;
  double y_long = 0;
  double z_alt = 0;
  typedef boost::shared_ptr<Waypoint> Ptr;
  typedef boost::shared_ptr<Waypoint const> ConstPtr;
};
typedef boost::shared_ptr<Waypoint> WaypointPtr;
typedef boost::shared_ptr<Waypoint const> WaypointConstPtr;
}
