#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct Empty {

  typedef boost::shared_ptr<Empty> Ptr;
  typedef boost::shared_ptr<Empty const> ConstPtr;
};
typedef boost::shared_ptr<Empty> EmptyPtr;
typedef boost::shared_ptr<Empty const> EmptyConstPtr;
}
