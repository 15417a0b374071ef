// Stand-in, see ../common/types.h
#pragma once
#include <tesseract/common/joint_state.h>
#include <tesseract/scene_graph/link.h>
#include <tesseract/state_solver/fwd.h>
#include <Eigen/Geometry>
#include <memory>
namespace tesseract::visualization
{
struct Marker
{
  virtual ~Marker() = default;
};
class Visualization
{
public:
  using Ptr = std::shared_ptr<Visualization>;
  virtual ~Visualization() = default;
  virtual void plotMarker(const Marker&, std::string = "") {}
  virtual void plotTrajectory(const tesseract::common::JointTrajectory&, const tesseract::scene_graph::StateSolver&, std::string = "") {}
  virtual void clear(std::string = "") {}
  virtual void waitForInput(std::string = "") {}
};
}  // namespace tesseract::visualization
