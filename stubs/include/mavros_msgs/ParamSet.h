#pragma once
#include <rosstub/core.h>
#include <mavros_msgs/ParamValue.h>
namespace mavros_msgs {
struct ParamSetRequest {
  std::string param_id;
  mavros_msgs::ParamValue value;
};
struct ParamSetResponse {
  uint8_t success = 0;
  mavros_msgs::ParamValue value;
};
struct ParamSet {
  typedef ParamSetRequest Request;
  typedef ParamSetResponse Response;
  Request request;
  Response response;
};
}
