#pragma once
#include <rosstub/core.h>
namespace mavros_msgs {
struct ParamValue {
  int64_t integer = 0;
  double real = 0;
  typedef boost::shared_ptr<ParamValue> Ptr;
  typedef boost::shared_ptr<ParamValue const> ConstPtr;
};
typedef boost::shared_ptr<ParamValue> ParamValuePtr;
typedef boost::shared_ptr<ParamValue const> ParamValueConstPtr;
}
