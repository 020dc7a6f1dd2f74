#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct Int32 {
  int32_t data = 0;
  typedef boost::shared_ptr<Int32> Ptr;
  typedef boost::shared_ptr<Int32 const> ConstPtr;
};
typedef boost::shared_ptr<Int32> Int32Ptr;
typedef boost::shared_ptr<Int32 const> Int32ConstPtr;
}
