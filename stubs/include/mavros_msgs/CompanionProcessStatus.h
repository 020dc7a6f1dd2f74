#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct CompanionProcessStatus {
  enum : uint8_t { MAV_STATE_UNINIT = 0 };
  enum : uint8_t { MAV_STATE_BOOT = 1 };
  enum : uint8_t { MAV_STATE_CALIBRATING = 2 };
  enum : uint8_t { MAV_STATE_STANDBY = 3 };
  enum : uint8_t { MAV_STATE_ACTIVE = 4 };
  enum : uint8_t { MAV_STATE_CRITICAL = 5 };
  enum : uint8_t { MAV_STATE_EMERGENCY = 6 };
  enum : uint8_t { MAV_STATE_POWEROFF = 7 };
  enum : uint8_t { MAV_STATE_FLIGHT_TERMINATION = 8 };
  enum : uint8_t { MAV_COMP_ID_OBSTACLE_AVOIDANCE = 196 };
  enum : uint8_t { MAV_COMP_ID_VISUAL_INERTIAL_ODOMETRY = 197 };
  std_msgs::Header header;
  uint8_t state = 0;
  uint8_t component = 0;
  typedef boost::shared_ptr<CompanionProcessStatus> Ptr;
  typedef boost::shared_ptr<CompanionProcessStatus const> ConstPtr;
};
typedef boost::shared_ptr<CompanionProcessStatus> CompanionProcessStatusPtr;
typedef boost::shared_ptr<CompanionProcessStatus const> CompanionProcessStatusConstPtr;
}
