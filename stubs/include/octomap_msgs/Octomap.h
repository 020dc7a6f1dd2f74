#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
namespace octomap_msgs {
struct Octomap {
  std_msgs::Header header;
  uint8_t binary = 0;
  std::string id;
  double resolution = 0;
  std::vector<int8_t> data;
  typedef boost::shared_ptr<Octomap> Ptr;
  typedef boost::shared_ptr<Octomap const> ConstPtr;
};
typedef boost::shared_ptr<Octomap> OctomapPtr;
typedef boost::shared_ptr<Octomap const> OctomapConstPtr;
}
