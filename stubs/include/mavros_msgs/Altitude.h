#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace mavros_msgs {
struct Altitude {
  std_msgs::Header header;
  float monotonic = 0;
  float amsl = 0;
  float local = 0;
  float relative = 0;
  float terrain = 0;
  float bottom_clearance = 0;
  typedef boost::shared_ptr<Altitude> Ptr;
  typedef boost::shared_ptr<Altitude const> ConstPtr;
};
typedef boost::shared_ptr<Altitude> AltitudePtr;
typedef boost::shared_ptr<Altitude const> AltitudeConstPtr;
}
