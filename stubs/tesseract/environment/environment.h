// Stand-in: the scene is whatever the harness says
#pragma once
#include <tesseract/collision/discrete_contact_manager.h>
#include <tesseract/collision/continuous_contact_manager.h>
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/utils.h>
#include <tesseract/state_solver/state_solver.h>
#include <tesseract/scene_graph/scene_state.h>
#include <tesseract/kinematics/joint_group.h>
#include <memory>
namespace tesseract::environment
{
class Environment
{
public:
  using Ptr = std::shared_ptr<Environment>;
  using ConstPtr = std::shared_ptr<const Environment>;
  virtual ~Environment() = default;
  virtual void getLinkTransforms(tesseract::common::TransformMap& transforms, const std::vector<std::string>& names,
                                 const Eigen::Ref<const Eigen::VectorXd>& values) const = 0;
  virtual std::vector<std::string> getActiveLinkNames() const = 0;
  virtual std::unique_ptr<tesseract::collision::DiscreteContactManager> getDiscreteContactManager() const = 0;
  virtual std::unique_ptr<tesseract::collision::ContinuousContactManager> getContinuousContactManager() const = 0;
  virtual std::vector<std::string> getActiveJointNames() const { std::abort(); }
  virtual std::unique_ptr<tesseract::scene_graph::StateSolver> getStateSolver() const { std::abort(); }
  virtual tesseract::scene_graph::SceneState getState() const { std::abort(); }
  virtual std::unique_ptr<tesseract::kinematics::JointGroup> getJointGroup(const std::string&) const { std::abort(); }
};
}  // namespace tesseract::environment
