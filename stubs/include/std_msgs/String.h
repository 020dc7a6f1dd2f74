#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct String {
  std::string data;
  typedef boost::shared_ptr<String> Ptr;
  typedef boost::shared_ptr<String const> ConstPtr;
};
typedef boost::shared_ptr<String> StringPtr;
typedef boost::shared_ptr<String const> StringConstPtr;
}
