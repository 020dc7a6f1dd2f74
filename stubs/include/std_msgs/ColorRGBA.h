#pragma once
#include <rosstub/core.h>
namespace std_msgs {
struct ColorRGBA {
  float r = 0;
  float g = 0;
  float b = 0;
  float a = 0;
  typedef boost::shared_ptr<ColorRGBA> Ptr;
  typedef boost::shared_ptr<ColorRGBA const> ConstPtr;
};
typedef boost::shared_ptr<ColorRGBA> ColorRGBAPtr;
typedef boost::shared_ptr<ColorRGBA const> ColorRGBAConstPtr;
}
