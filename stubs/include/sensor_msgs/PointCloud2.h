#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <sensor_msgs/PointField.h>
namespace sensor_msgs {
struct PointCloud2 {
  std_msgs::Header header;
  uint32_t height = 0;
  uint32_t width = 0;
  std::vector<sensor_msgs::PointField> fields;
  uint8_t is_bigendian = 0;
  uint32_t point_step = 0;
  uint32_t row_step = 0;
  std::vector<uint8_t> data;
  uint8_t is_dense = 0;
  typedef boost::shared_ptr<PointCloud2> Ptr;
  typedef boost::shared_ptr<PointCloud2 const> ConstPtr;
};
typedef boost::shared_ptr<PointCloud2> PointCloud2Ptr;
typedef boost::shared_ptr<PointCloud2 const> PointCloud2ConstPtr;
}
