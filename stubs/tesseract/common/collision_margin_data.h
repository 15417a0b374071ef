// Stand-in, see types.h
#pragma once
#include "types.h"
#include <map>
namespace tesseract::common
{
class CollisionMarginData
{
public:
  CollisionMarginData(double m = 0) : default_(m) {}
  double getCollisionMargin(const std::string& a, const std::string& b) const
  {
    auto it = pairs_.find(a <= b ? LinkNamesPair(a, b) : LinkNamesPair(b, a));
    return it == pairs_.end() ? default_ : it->second;
  }
  void setCollisionMargin(const std::string& a, const std::string& b, double m)
  {
    pairs_[a <= b ? LinkNamesPair(a, b) : LinkNamesPair(b, a)] = m;
  }

private:
  double default_;
  std::map<LinkNamesPair, double> pairs_;
};
}  // namespace tesseract::common
