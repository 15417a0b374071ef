#pragma once
#include <tesseract/kinematics/joint_group.h>
#include <cstdlib>
namespace tesseract::kinematics
{
inline void numericalJacobian(Eigen::Ref<Eigen::MatrixXd>, const Eigen::Isometry3d&, const JointGroup&, const Eigen::Ref<const Eigen::VectorXd>&,
                              const std::string&, const Eigen::Ref<const Eigen::Vector3d>&)
{
  std::abort();  // not modelled
}
}  // namespace tesseract::kinematics
