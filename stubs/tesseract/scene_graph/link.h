// Stand-in, see ../common/types.h
#pragma once
#include <Eigen/Core>
#include <memory>
#include <string>
namespace tesseract::scene_graph
{
struct Material
{
  explicit Material(std::string n) : name(std::move(n)) {}
  std::string name;
  Eigen::Vector4d color{ Eigen::Vector4d::Zero() };
};
}  // namespace tesseract::scene_graph
