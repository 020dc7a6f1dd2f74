#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct Float64 {
  double data = 0;
  typedef boost::shared_ptr<Float64> Ptr;
  typedef boost::shared_ptr<Float64 const> ConstPtr;
};
typedef boost::shared_ptr<Float64> Float64Ptr;
typedef boost::shared_ptr<Float64 const> Float64ConstPtr;
}
