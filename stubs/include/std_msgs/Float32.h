#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct Float32 {
  float data = 0;
  typedef boost::shared_ptr<Float32> Ptr;
  typedef boost::shared_ptr<Float32 const> ConstPtr;
};
typedef boost::shared_ptr<Float32> Float32Ptr;
typedef boost::shared_ptr<Float32 const> Float32ConstPtr;
}
