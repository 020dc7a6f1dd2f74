#pragma once
#include <rosstub/core.h>
#include <std_msgs/MultiArrayDimension.h>
namespace std_msgs {
struct MultiArrayLayout {
  std::vector<std_msgs::MultiArrayDimension> dim;
  uint32_t data_offset = 0;
  typedef boost::shared_ptr<MultiArrayLayout> Ptr;
  typedef boost::shared_ptr<MultiArrayLayout const> ConstPtr;
};
typedef boost::shared_ptr<MultiArrayLayout> MultiArrayLayoutPtr;
typedef boost::shared_ptr<MultiArrayLayout const> MultiArrayLayoutConstPtr;
}
