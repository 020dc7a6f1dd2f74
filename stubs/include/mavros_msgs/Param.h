#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <mavros_msgs/ParamValue.h>
namespace mavros_msgs {
struct Param {
  std_msgs::Header header;
  std::string param_id;
  mavros_msgs::ParamValue value;
  uint16_t param_index = 0;
  uint16_t param_count = 0;
  typedef boost::shared_ptr<Param> Ptr;
  typedef boost::shared_ptr<Param const> ConstPtr;
};
typedef boost::shared_ptr<Param> ParamPtr;
typedef boost::shared_ptr<Param const> ParamConstPtr;
}
