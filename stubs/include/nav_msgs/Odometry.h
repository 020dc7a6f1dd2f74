#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Twist.h>
namespace nav_msgs {
struct Odometry {
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::Pose pose_;
  geometry_msgs::Twist twist_;
  typedef boost::shared_ptr<Odometry> Ptr;
  typedef boost::shared_ptr<Odometry const> ConstPtr;
};
typedef boost::shared_ptr<Odometry> OdometryPtr;
typedef boost::shared_ptr<Odometry const> OdometryConstPtr;
}
