#pragma once
#include <rosstub/core.h>
#include <mavros_msgs/ParamValue.h>
namespace mavros_msgs {
struct ParamGetRequest {
  std::string param_id;
};
struct ParamGetResponse {
  uint8_t success = 0;
  mavros_msgs::ParamValue value;
};
struct ParamGet {
  typedef ParamGetRequest Request;
  typedef ParamGetResponse Response;
  Request request;
  Response response;
};
}
