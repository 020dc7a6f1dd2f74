#pragma once
#include <sensor_msgs/Image.h>
#include <string>
namespace sensor_msgs { namespace image_encodings { const std::string MONO8 = "mono8"; const std::string RGB8 = "rgb8"; const std::string BGR8 = "bgr8"; const std::string MONO16 = "mono16"; } }
