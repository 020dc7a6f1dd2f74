#pragma once
#include <rosstub/core.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Float64MultiArray {
  std_msgs::MultiArrayLayout layout;
  std::vector<double> data;
  typedef boost::shared_ptr<Float64MultiArray> Ptr;
  typedef boost::shared_ptr<Float64MultiArray const> ConstPtr;
};
typedef boost::shared_ptr<Float64MultiArray> Float64MultiArrayPtr;
typedef boost::shared_ptr<Float64MultiArray const> Float64MultiArrayConstPtr;
}
