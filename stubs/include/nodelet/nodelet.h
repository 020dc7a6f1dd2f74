#pragma once
#include <rosstub/core.h>
namespace nodelet {
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;
class Nodelet {
 public:
  virtual ~Nodelet() {}
  virtual void onInit() = 0;
  const std::string& getName() const { return name_; }
  ros::NodeHandle& getNodeHandle() const { static ros::NodeHandle n; return n; }
  ros::NodeHandle& getPrivateNodeHandle() const { static ros::NodeHandle n("~"); return n; }
  ros::NodeHandle& getMTNodeHandle() const { return getNodeHandle(); }
  ros::NodeHandle& getMTPrivateNodeHandle() const { return getPrivateNodeHandle(); }
  void init(const std::string& n) { name_ = n; onInit(); }
 protected:
  std::string name_;
};
}
