#pragma once
#include <rosstub/core.h>
namespace sensor_msgs {
struct PointField {
  enum : uint8_t { INT8 = 1 };
  enum : uint8_t { UINT8 = 2 };
  enum : uint8_t { INT16 = 3 };
  enum : uint8_t { UINT16 = 4 };
  enum : uint8_t { INT32 = 5 };
  enum : uint8_t { UINT32 = 6 };
  enum : uint8_t { FLOAT32 = 7 };
  enum : uint8_t { FLOAT64 = 8 };
  std::string name;
  uint32_t offset = 0;
  uint8_t datatype = 0;
  uint32_t count = 0;
  typedef boost::shared_ptr<PointField> Ptr;
  typedef boost::shared_ptr<PointField const> ConstPtr;
};
typedef boost::shared_ptr<PointField> PointFieldPtr;
typedef boost::shared_ptr<PointField const> PointFieldConstPtr;
}
