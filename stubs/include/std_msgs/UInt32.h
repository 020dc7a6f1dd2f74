#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct UInt32 {
  uint32_t data = 0;
  typedef boost::shared_ptr<UInt32> Ptr;
  typedef boost::shared_ptr<UInt32 const> ConstPtr;
};
typedef boost::shared_ptr<UInt32> UInt32Ptr;
typedef boost::shared_ptr<UInt32 const> UInt32ConstPtr;
}
