#pragma once
#include <rosstub/core.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Point.h>
namespace nav_msgs {
struct GridCells {
  std_msgs::Header header;
  float cell_width = 0;
  float cell_height = 0;
  std::vector<geometry_msgs::Point> cells;
  typedef boost::shared_ptr<GridCells> Ptr;
  typedef boost::shared_ptr<GridCells const> ConstPtr;
};
typedef boost::shared_ptr<GridCells> GridCellsPtr;
typedef boost::shared_ptr<GridCells const> GridCellsConstPtr;
}
