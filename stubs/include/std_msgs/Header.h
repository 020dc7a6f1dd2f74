#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
  typedef boost::shared_ptr<Header> Ptr;
  typedef boost::shared_ptr<Header const> ConstPtr;
};
typedef boost::shared_ptr<Header> HeaderPtr;
typedef boost::shared_ptr<Header const> HeaderConstPtr;
}
