// The collision data of trajopt_common (real code) over a scene given by the harness.
#pragma once
#include "util.h"
#include "hash_stub.h"
#define getHash getHashOfTheCode
#include <../src/collision_utils.cpp>
#undef getHash
#include <trajopt_common/collision_types.h>
#include <tesseract/kinematics/joint_group.h>

namespace hu
{
using tesseract::collision::ContactResult;
using CC = tesseract::collision::ContinuousCollisionType;

inline Eigen::Vector3d vec3(const std::string& n) { return Eigen::Vector3d(sym::real(n + "x"), sym::real(n + "y"), sym::real(n + "z")); }
inline Eigen::Isometry3d frame(const std::string& n)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  for (int r = 0; r < 3; ++r)
  {
    for (int c = 0; c < 3; ++c)
      t.matrix()(r, c) = sym::real(n + "R" + std::to_string(r) + std::to_string(c));
    t.matrix()(r, 3) = sym::real(n + "p" + std::to_string(r));
  }
  return t;
}

/** a manipulator whose Jacobian at each link is an arbitrary affine function of the joint values */
struct Manip : tesseract::kinematics::JointGroup
{
  Manip(int dof, std::vector<std::string> active, bool varying) : dof(dof), active(std::move(active)), varying(varying)
  {
    for (const auto& l : this->active)
    {
      Eigen::MatrixXd b(6, dof), s = Eigen::MatrixXd::Zero(6, dof);
      for (int r = 0; r < 6; ++r)
        for (int c = 0; c < dof; ++c)
        {
          b(r, c) = sym::real("J." + l + std::to_string(r) + std::to_string(c));
          if (varying)
            s(r, c) = sym::real("dJ." + l + std::to_string(r) + std::to_string(c));
        }
      base[l] = b;
      slope[l] = s;
    }
  }
  Eigen::MatrixXd jac(const Eigen::VectorXd& q, const std::string& l) const
  {
    Eigen::MatrixXd m = base.at(l);
    if (varying)
      for (int c = 0; c < dof; ++c)
        m.col(c) += slope.at(l).col(c) * q(c);
    return m;
  }
  using tesseract::kinematics::JointGroup::calcFwdKin;
  using tesseract::kinematics::JointGroup::calcJacobian;
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& l) const override
  {
    ++calls;
    return jac(q, l);
  }
  bool isActiveLinkName(const std::string& l) const override
  {
    for (const auto& a : active)
      if (a == l)
        return true;
    return false;
  }
  std::vector<std::string> getActiveLinkNames() const override { return active; }
  int dof;
  std::vector<std::string> active;
  bool varying;
  std::map<std::string, Eigen::MatrixXd> base, slope;
  mutable int calls{ 0 };
};

/** gradient of the distance error wrt. the joints by first principles: the contact point on link i moves with velocity
 *  v + w x r; moving it along the (outward) normal changes the distance by + (link 1) / - (link 0) */
inline Eigen::VectorXd pointGradient(const Manip& m, const Eigen::VectorXd& q, const ContactResult& c, int i, const Eigen::Matrix3d& R)
{
  const Eigen::MatrixXd J = m.jac(q, c.link_names[static_cast<std::size_t>(i)]);
  const Eigen::Vector3d p = c.nearest_points_local[static_cast<std::size_t>(i)];
  double r[3];
  for (int a = 0; a < 3; ++a)
    r[a] = R(a, 0) * p(0) + R(a, 1) * p(1) + R(a, 2) * p(2);
  Eigen::VectorXd g(m.dof);
  for (int k = 0; k < m.dof; ++k)
  {
    const double v0 = J(0, k) + J(4, k) * r[2] - J(5, k) * r[1];
    const double v1 = J(1, k) + J(5, k) * r[0] - J(3, k) * r[2];
    const double v2 = J(2, k) + J(3, k) * r[1] - J(4, k) * r[0];
    const double d = v0 * c.normal(0) + v1 * c.normal(1) + v2 * c.normal(2);
    g(k) = i == 0 ? 0.0 - d : d;
  }
  return g;
}
}  // namespace hu
