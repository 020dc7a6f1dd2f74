#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/PoseStamped.h>
namespace nav_msgs {
struct Path {
  std_msgs::Header header;
  std::vector<geometry_msgs::PoseStamped> poses;
  typedef boost::shared_ptr<Path> Ptr;
  typedef boost::shared_ptr<Path const> ConstPtr;
};
typedef boost::shared_ptr<Path> PathPtr;
typedef boost::shared_ptr<Path const> PathConstPtr;
}
