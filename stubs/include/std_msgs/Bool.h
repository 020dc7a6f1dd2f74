#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct Bool {
  uint8_t data = 0;
  typedef boost::shared_ptr<Bool> Ptr;
  typedef boost::shared_ptr<Bool const> ConstPtr;
};
typedef boost::shared_ptr<Bool> BoolPtr;
typedef boost::shared_ptr<Bool const> BoolConstPtr;
}
