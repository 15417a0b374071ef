// Stand-in: the kinematics of the manipulator are whatever the harness says.  The class is concrete and copyable (the
// legacy code copies it); a copy answers through `impl`.
#pragma once
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/utils.h>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
namespace tesseract::kinematics
{
struct KinematicLimits
{
  Eigen::Matrix<double, Eigen::Dynamic, 2> joint_limits;
};
class JointGroup
{
public:
  using Ptr = std::shared_ptr<JointGroup>;
  using ConstPtr = std::shared_ptr<const JointGroup>;
  using Q = Eigen::Ref<const Eigen::VectorXd>;
  using V3 = Eigen::Ref<const Eigen::Vector3d>;
  JointGroup() = default;
  explicit JointGroup(const JointGroup* i) : impl(i) {}
  virtual ~JointGroup() = default;
  const JointGroup* impl{ nullptr };
  virtual Eigen::MatrixXd calcJacobian(const Q& q, const std::string& link) const { return to().calcJacobian(q, link); }
  virtual Eigen::MatrixXd calcJacobian(const Q& q, const std::string& link, const V3& p) const { return to().calcJacobian(q, link, p); }
  virtual Eigen::MatrixXd calcJacobian(const Q& q, const std::string& base, const std::string& link) const
  {
    return to().calcJacobian(q, base, link);
  }
  virtual Eigen::MatrixXd calcJacobian(const Q& q, const std::string& base, const std::string& link, const V3& p) const
  {
    return to().calcJacobian(q, base, link, p);
  }
  virtual bool isActiveLinkName(const std::string& link) const { return to().isActiveLinkName(link); }
  virtual bool hasLinkName(const std::string& link) const { return to().hasLinkName(link); }
  virtual std::vector<std::string> getActiveLinkNames() const
  {
    if (impl == nullptr)
      return {};
    return impl->getActiveLinkNames();
  }
  virtual std::vector<std::string> getJointNames() const
  {
    if (impl == nullptr)
      return {};
    return impl->getJointNames();
  }
  virtual std::string getBaseLinkName() const { return to().getBaseLinkName(); }
  virtual void calcFwdKin(tesseract::common::TransformMap& t, const Q& q) const { to().calcFwdKin(t, q); }
  virtual tesseract::common::TransformMap calcFwdKin(const Q& q) const
  {
    tesseract::common::TransformMap t;
    calcFwdKin(t, q);
    return t;
  }
  virtual KinematicLimits getLimits() const { return to().getLimits(); }
  virtual long numJoints() const { return impl == nullptr ? 0 : impl->numJoints(); }

private:
  const JointGroup& to() const
  {
    if (impl == nullptr)
      std::abort();  // the harness does not provide what the code asks for
    return *impl;
  }
};
}  // namespace tesseract::kinematics
