#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <nav_msgs/MapMetaData.h>
namespace nav_msgs {
struct OccupancyGrid {
  std_msgs::Header header;
  nav_msgs::MapMetaData info;
  std::vector<int8_t> data;
  typedef boost::shared_ptr<OccupancyGrid> Ptr;
  typedef boost::shared_ptr<OccupancyGrid const> ConstPtr;
};
typedef boost::shared_ptr<OccupancyGrid> OccupancyGridPtr;
typedef boost::shared_ptr<OccupancyGrid const> OccupancyGridConstPtr;
}
