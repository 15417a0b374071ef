#pragma once
#include "../visualization.h"
namespace tesseract::visualization
{
struct AxisMarker : Marker
{
  explicit AxisMarker(const Eigen::Isometry3d& p) : pose(p) {}
  Eigen::Isometry3d pose;
  void setScale(const Eigen::Vector3d&) {}
};
}  // namespace tesseract::visualization
