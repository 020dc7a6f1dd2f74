#pragma once
#include <rosstub/core.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Int32MultiArray {
  std_msgs::MultiArrayLayout layout;
  std::vector<int32_t> data;
  typedef boost::shared_ptr<Int32MultiArray> Ptr;
  typedef boost::shared_ptr<Int32MultiArray const> ConstPtr;
};
typedef boost::shared_ptr<Int32MultiArray> Int32MultiArrayPtr;
typedef boost::shared_ptr<Int32MultiArray const> Int32MultiArrayConstPtr;
}
