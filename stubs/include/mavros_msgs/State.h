#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct State {
  static const char* MODE_PX4_MISSION() { return "AUTO.MISSION"; }
  std_msgs::Header header;
  uint8_t connected = 0;
  uint8_t armed = 0;
  uint8_t guided = 0;
  uint8_t manual_input = 0;
  std::string mode;
  uint8_t system_status = 0;
  typedef boost::shared_ptr<State> Ptr;
  typedef boost::shared_ptr<State const> ConstPtr;
};
typedef boost::shared_ptr<State> StatePtr;
typedef boost::shared_ptr<State const> StateConstPtr;
}
