// Stand-in, see ../common/types.h
#pragma once
#include <map>
#include <string>
namespace tesseract::scene_graph
{
struct SceneState
{
  std::map<std::string, double> joints;
};
}  // namespace tesseract::scene_graph
