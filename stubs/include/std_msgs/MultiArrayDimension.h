#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct MultiArrayDimension {
  std::string label;
  uint32_t size = 0;
  uint32_t stride = 0;
  typedef boost::shared_ptr<MultiArrayDimension> Ptr;
  typedef boost::shared_ptr<MultiArrayDimension const> ConstPtr;
};
typedef boost::shared_ptr<MultiArrayDimension> MultiArrayDimensionPtr;
typedef boost::shared_ptr<MultiArrayDimension const> MultiArrayDimensionConstPtr;
}
