#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseArray {
  std_msgs::Header header;
  std::vector<geometry_msgs::Pose> poses;
  typedef boost::shared_ptr<PoseArray> Ptr;
  typedef boost::shared_ptr<PoseArray const> ConstPtr;
};
typedef boost::shared_ptr<PoseArray> PoseArrayPtr;
typedef boost::shared_ptr<PoseArray const> PoseArrayConstPtr;
}
