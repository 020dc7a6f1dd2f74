#pragma once
#include <rosstub/core.h>
namespace mavros_msgs {
struct SetModeRequest {
  uint8_t base_mode = 0;
  std::string custom_mode;
};
struct SetModeResponse {
  uint8_t mode_sent = 0;
};
struct SetMode {
  typedef SetModeRequest Request;
  typedef SetModeResponse Response;
  Request request;
  Response response;
};
}
