#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/ColorRGBA.h>
#include <geometry_msgs/Point.h>
namespace visualization_msgs {
struct Marker {
  enum : int32_t { ARROW = 0 };
  enum : int32_t { CUBE = 1 };
  enum : int32_t { SPHERE = 2 };
  enum : int32_t { CYLINDER = 3 };
  enum : int32_t { LINE_STRIP = 4 };
  enum : int32_t { LINE_LIST = 5 };
  enum : int32_t { CUBE_LIST = 6 };
  enum : int32_t { SPHERE_LIST = 7 };
  enum : int32_t { POINTS = 8 };
  enum : int32_t { TEXT_VIEW_FACING = 9 };
  enum : int32_t { MESH_RESOURCE = 10 };
  enum : int32_t { TRIANGLE_LIST = 11 };
  enum : int32_t { ADD = 0 };
  enum : int32_t { MODIFY = 0 };
  enum : int32_t { DELETE = 2 };
  enum : int32_t { DELETEALL = 3 };
  std_msgs::Header header;
  std::string ns;
  int32_t id = 0;
  int32_t type = 0;
  int32_t action = 0;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  ros::Duration lifetime;
  uint8_t frame_locked = 0;
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
  std::string text;
  std::string mesh_resource;
  uint8_t mesh_use_embedded_materials = 0;
  typedef boost::shared_ptr<Marker> Ptr;
  typedef boost::shared_ptr<Marker const> ConstPtr;
};
typedef boost::shared_ptr<Marker> MarkerPtr;
typedef boost::shared_ptr<Marker const> MarkerConstPtr;
}
