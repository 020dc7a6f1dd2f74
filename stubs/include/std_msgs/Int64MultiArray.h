#pragma once
#include <rosstub/core.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Int64MultiArray {
  std_msgs::MultiArrayLayout layout;
  std::vector<int64_t> data;
  typedef boost::shared_ptr<Int64MultiArray> Ptr;
  typedef boost::shared_ptr<Int64MultiArray const> ConstPtr;
};
typedef boost::shared_ptr<Int64MultiArray> Int64MultiArrayPtr;
typedef boost::shared_ptr<Int64MultiArray const> Int64MultiArrayConstPtr;
}
