#pragma once
#include <octomap/octomap.h>
#include <octomap_msgs/Octomap.h>
#include <cstring>
namespace octomap_msgs {
// payload: repeated {int32 kx, ky, kz; float logodds}
inline octomap::AbstractOcTree* msgToMap(const Octomap& m) {
  auto* t = new octomap::OcTree(m.resolution);
  for (size_t i = 0; i + 16 <= m.data.size(); i += 16) {
    int32_t k[3]; float l; std::memcpy(k, &m.data[i], 12); std::memcpy(&l, &m.data[i + 12], 4);
    t->setNodeValue((k[0] + 0.5) * m.resolution, (k[1] + 0.5) * m.resolution, (k[2] + 0.5) * m.resolution, l);
  }
  return t;
}
inline octomap::AbstractOcTree* fullMsgToMap(const Octomap& m) { return msgToMap(m); }
inline void put(Octomap& m, int x, int y, int z, float l) { size_t o = m.data.size(); m.data.resize(o + 16); int32_t k[3] = {x, y, z}; std::memcpy(&m.data[o], k, 12); std::memcpy(&m.data[o + 12], &l, 4); }
}
