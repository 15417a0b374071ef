// Stand-in, see ../common/types.h
#pragma once
#include <memory>
namespace tesseract::scene_graph
{
class StateSolver
{
public:
  using UPtr = std::unique_ptr<StateSolver>;
  virtual ~StateSolver() = default;
};
}  // namespace tesseract::scene_graph
