#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct Image {
  std_msgs::Header header;
  uint32_t height = 0;
  uint32_t width = 0;
  std::string encoding;
  uint8_t is_bigendian = 0;
  uint32_t step = 0;
  std::vector<uint8_t> data;
  typedef boost::shared_ptr<Image> Ptr;
  typedef boost::shared_ptr<Image const> ConstPtr;
};
typedef boost::shared_ptr<Image> ImagePtr;
typedef boost::shared_ptr<Image const> ImageConstPtr;
}
