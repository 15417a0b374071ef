// Stand-in: the inverse kinematics are whatever the harness says
#pragma once
#include "joint_group.h"
namespace tesseract::kinematics
{
using IKSolutions = std::vector<Eigen::VectorXd>;
struct KinGroupIKInput
{
  KinGroupIKInput() = default;
  KinGroupIKInput(const Eigen::Isometry3d& p, std::string w, std::string t) : pose(p), working_frame(std::move(w)), tip_link_name(std::move(t)) {}
  Eigen::Isometry3d pose{ Eigen::Isometry3d::Identity() };
  std::string working_frame, tip_link_name;
};
using KinGroupIKInputs = std::vector<KinGroupIKInput>;
class KinematicGroup : public JointGroup
{
public:
  virtual IKSolutions calcInvKin(const KinGroupIKInputs& inputs, const Eigen::Ref<const Eigen::VectorXd>& seed) const = 0;
};
}  // namespace tesseract::kinematics
