// Stand-in, see types.h
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <map>
#include <string>
namespace tesseract::common
{
using TransformMap = std::map<std::string, Eigen::Isometry3d>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
}  // namespace tesseract::common
