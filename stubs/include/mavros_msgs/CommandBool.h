#pragma once
#include <rosstub/core.h>
namespace mavros_msgs {
struct CommandBoolRequest {
  uint8_t value = 0;
};
struct CommandBoolResponse {
  uint8_t success = 0;
  uint8_t result = 0;
};
struct CommandBool {
  typedef CommandBoolRequest Request;
  typedef CommandBoolResponse Response;
  Request request;
  Response response;
};
}
