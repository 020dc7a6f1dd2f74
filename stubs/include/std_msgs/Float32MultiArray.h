#pragma once
#include <rosstub/core.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Float32MultiArray {
  std_msgs::MultiArrayLayout layout;
  std::vector<float> data;
  typedef boost::shared_ptr<Float32MultiArray> Ptr;
  typedef boost::shared_ptr<Float32MultiArray const> ConstPtr;
};
typedef boost::shared_ptr<Float32MultiArray> Float32MultiArrayPtr;
typedef boost::shared_ptr<Float32MultiArray const> Float32MultiArrayConstPtr;
}
