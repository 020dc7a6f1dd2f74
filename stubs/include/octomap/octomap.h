#pragma once
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <tuple>
#include <vector>
namespace octomap {
inline float logodds(double p) { return (float)std::log(p / (1 - p)); }
inline double probability(double l) { return 1. - (1. / (1. + std::exp(l))); }
class point3d { float v[3]; public: point3d(float x = 0, float y = 0, float z = 0) : v{x, y, z} {} float x() const { return v[0]; } float y() const { return v[1]; } float z() const { return v[2]; } float& operator()(int i) { return v[i]; } };
class AbstractOcTree { public: virtual ~AbstractOcTree() {} virtual double getResolution() const = 0; virtual size_t memoryUsage() const = 0; virtual size_t size() const = 0; virtual std::string getTreeType() const { return "OcTree"; } };
class OcTreeNode { float l_; public: OcTreeNode(float l = 0) : l_(l) {} float getValue() const { return l_; } void setValue(float v) { l_ = v; } float getLogOdds() const { return l_; } double getOccupancy() const { return probability(l_); } void setLogOdds(float l) { l_ = l; } };
class OcTree : public AbstractOcTree {
  double res_;
  std::map<std::tuple<int, int, int>, OcTreeNode> n_;
  mutable OcTreeNode inner_;
 public:
  OcTree(double r) : res_(r) {}
  double getResolution() const { return res_; }
  size_t memoryUsage() const { return n_.size() * 16; }
  size_t size() const { return n_.size(); }
  int k(double v) const { return (int)std::floor(v / res_); }
  OcTreeNode* updateNode(double x, double y, double z, bool occ) { auto& n = n_[std::make_tuple(k(x), k(y), k(z))]; n.setValue(n.getValue() + (occ ? 0.85f : -0.4f)); return &n; }
  OcTreeNode* setNodeValue(double x, double y, double z, float l, bool = false) { auto& n = n_[std::make_tuple(k(x), k(y), k(z))]; n.setValue(l); return &n; }
  void updateInnerOccupancy() {}
  OcTreeNode* search(double x, double y, double z, unsigned depth = 0) const {
    int s = (depth == 0 || depth >= 16) ? 1 : 1 << (16 - depth);
    auto fl = [s](int a) { return a >= 0 ? a / s * s : -((-a + s - 1) / s) * s; };
    int a = fl(k(x)), b = fl(k(y)), c = fl(k(z));
    bool found = false; float best = 0; OcTreeNode* r = nullptr;
    for (int i = a; i < a + s; i++) for (int j = b; j < b + s; j++) for (int l = c; l < c + s; l++) {
      auto it = n_.find(std::make_tuple(i, j, l));
      if (it == n_.end()) continue;
      if (!found || it->second.getValue() > best) { best = it->second.getValue(); r = const_cast<OcTreeNode*>(&it->second); }
      found = true;
    }
    return r;
  }
  OcTreeNode* search(const point3d& p, unsigned depth = 0) const { return search(p.x(), p.y(), p.z(), depth); }
  bool isNodeOccupied(const OcTreeNode* n) const { return n->getValue() > 0; }
};
}
