#pragma once
#include <rosstub/core.h>
#include <geometry_msgs/Pose.h>
namespace nav_msgs {
struct MapMetaData {
  ros::Time map_load_time;
  float resolution = 0;
  uint32_t width = 0;
  uint32_t height = 0;
  geometry_msgs::Pose origin;
  typedef boost::shared_ptr<MapMetaData> Ptr;
  typedef boost::shared_ptr<MapMetaData const> ConstPtr;
};
typedef boost::shared_ptr<MapMetaData> MapMetaDataPtr;
typedef boost::shared_ptr<MapMetaData const> MapMetaDataConstPtr;
}
