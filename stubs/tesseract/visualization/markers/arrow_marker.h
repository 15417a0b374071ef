#pragma once
#include "../visualization.h"
namespace tesseract::visualization
{
struct ArrowMarker : Marker
{
  ArrowMarker(const Eigen::Vector3d& a, const Eigen::Vector3d& b) : from(a), to(b) {}
  Eigen::Vector3d from, to;
  std::shared_ptr<scene_graph::Material> material;
};
}  // namespace tesseract::visualization
