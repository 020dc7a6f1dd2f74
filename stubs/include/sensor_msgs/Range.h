#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct Range {
  std_msgs::Header header;
  uint8_t radiation_type = 0;
  float field_of_view = 0;
  float min_range = 0;
  float max_range = 0;
  float range = 0;
  typedef boost::shared_ptr<Range> Ptr;
  typedef boost::shared_ptr<Range const> ConstPtr;
};
typedef boost::shared_ptr<Range> RangePtr;
typedef boost::shared_ptr<Range const> RangeConstPtr;
}
