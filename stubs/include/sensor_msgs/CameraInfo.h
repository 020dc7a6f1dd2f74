#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct CameraInfo {
  std_msgs::Header header;
  uint32_t height = 0;
  uint32_t width = 0;
  typedef boost::shared_ptr<CameraInfo> Ptr;
  typedef boost::shared_ptr<CameraInfo const> ConstPtr;
};
typedef boost::shared_ptr<CameraInfo> CameraInfoPtr;
typedef boost::shared_ptr<CameraInfo const> CameraInfoConstPtr;
}
