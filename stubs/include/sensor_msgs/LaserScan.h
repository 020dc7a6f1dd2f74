#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct LaserScan {
  std_msgs::Header header;
  float angle_min = 0;
  float angle_max = 0;
  float angle_increment = 0;
  float time_increment = 0;
  float scan_time = 0;
  float range_min = 0;
  float range_max = 0;
  std::vector<float> ranges;
  std::vector<float> intensities;
  typedef boost::shared_ptr<LaserScan> Ptr;
  typedef boost::shared_ptr<LaserScan const> ConstPtr;
};
typedef boost::shared_ptr<LaserScan> LaserScanPtr;
typedef boost::shared_ptr<LaserScan const> LaserScanConstPtr;
}
