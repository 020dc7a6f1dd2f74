#pragma once
#include <rosstub/pcl_impl.h>
namespace sensor_msgs {
class PointCloud2Modifier { PointCloud2& m; public: PointCloud2Modifier(PointCloud2& c) : m(c) {} template <class... A> void setPointCloud2Fields(int, A...) { rosstub::fieldList(m); }
 template <class... A> void setPointCloud2FieldsByString(int, A...) { rosstub::fieldList(m); m.point_step = 32; } void resize(size_t n) { m.data.resize(n * m.point_step); m.width = n; m.height = 1; m.row_step = n * m.point_step; } };
template <class T> class PointCloud2Iterator { uint8_t* p; size_t step; public: PointCloud2Iterator(PointCloud2& m, const std::string& f) : p(m.data.data()), step(m.point_step) { const char* n = "xyzrgb"; p += (f == "x" ? 0 : f == "y" ? 4 : f == "z" ? 8 : f == "r" ? 18 : f == "g" ? 17 : 16); (void)n; } T& operator*() { return *(T*)p; } PointCloud2Iterator& operator++() { p += step; return *this; } };
}
