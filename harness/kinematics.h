// A kinematic chain given by the harness: pose of each link an arbitrary function of the joints that is affine in each joint.
#pragma once
#include "util.h"
#include <tesseract/kinematics/joint_group.h>
#include <tesseract/common/utils.h>
#include <algorithm>
#include <array>
#include <map>

namespace hu
{
using Iso = Eigen::Isometry3d;
/** one of a few exact rotations */
inline Eigen::Matrix3d turn(int k)
{
  Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
  if (k == 1)
    m << 0, -1, 0, 1, 0, 0, 0, 0, 1;
  if (k == 2)
    m << 0, 0, 1, 1, 0, 0, 0, 1, 0;
  if (k == 3)
    m << 1, 0, 0, 0, 0, -1, 0, 1, 0;
  return m;
}
inline Iso iso(const Eigen::Matrix3d& r, const Eigen::Vector3d& p)
{
  Iso t = Iso::Identity();
  t.linear() = r;
  t.translation() = p;
  return t;
}
inline Eigen::Vector3d point(const std::string& n, double lim = 8)
{
  return Eigen::Vector3d(sym::real_in(n + "x", -lim, lim), sym::real_in(n + "y", -lim, lim), sym::real_in(n + "z", -lim, lim));
}

struct Chain : tesseract::kinematics::JointGroup
{
  using JointGroup::calcFwdKin;
  using JointGroup::calcJacobian;
  struct Link
  {
    Eigen::Matrix3d R{ Eigen::Matrix3d::Identity() };
    Eigen::Vector3d p{ Eigen::Vector3d::Zero() };
    std::vector<Eigen::Matrix3d> dR;  // per joint; empty: static
    std::vector<Eigen::Vector3d> dp;
  };
  int dof;
  std::map<std::string, Link> links;
  std::map<std::string, Eigen::MatrixXd> jac;  // 6 x dof at the origin of the link
  std::string base{ "base" };
  mutable std::string asked;
  explicit Chain(int n) : dof(n) {}
  Link& fixed(const std::string& n, int rot)
  {
    Link& l = links[n];
    l.R = turn(rot);
    l.p = point(n + ".p");
    return l;
  }
  /** a link whose position (and, when spins, orientation) depends on every joint */
  Link& moving(const std::string& n, int rot, bool spins)
  {
    Link& l = fixed(n, rot);
    for (int j = 0; j < dof; ++j)
    {
      l.dp.push_back(point(n + ".dp" + std::to_string(j), 4));
      Eigen::Matrix3d w = Eigen::Matrix3d::Zero();
      if (spins)
      {
        const Eigen::Vector3d a = point(n + ".w" + std::to_string(j), 4);
        w << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
        w = w * l.R;
      }
      l.dR.push_back(w);
    }
    return l;
  }
  /** a link that moves with concrete velocities (and turns), from an arbitrary position */
  Link& sliding(const std::string& n, int rot, bool spins, int variant)
  {
    const double v[2][3] = { { 1, -0.5, 0.25 }, { 0, -2, 1 } }, w[2][3] = { { 0.5, 0, -1 }, { -2, 1, 0.25 } };
    Link& l = fixed(n, rot);
    for (int j = 0; j < dof; ++j)
    {
      const int k = (variant + j) % 2;
      l.dp.push_back(Eigen::Vector3d(v[k][0], v[k][1], v[k][2]));
      Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
      if (spins)
        m << 0, -w[k][2], w[k][1], w[k][2], 0, -w[k][0], -w[k][1], w[k][0], 0;
      l.dR.push_back(m * l.R);
    }
    return l;
  }
  Iso pose(const std::string& n, const Eigen::VectorXd& q) const
  {
    const Link& l = links.at(n);
    Eigen::Matrix3d R = l.R;
    Eigen::Vector3d p = l.p;
    for (std::size_t j = 0; j < l.dp.size(); ++j)
    {
      R += l.dR[j] * q(static_cast<Eigen::Index>(j));
      p += l.dp[j] * q(static_cast<Eigen::Index>(j));
    }
    return iso(R, p);
  }
  void calcFwdKin(tesseract::common::TransformMap& t, const Q& q) const override
  {
    if (q.size() != dof)
    {
      sym::fail("joint values given to the kinematics");
      sym::stop();
    }
    for (const auto& l : links)
      t[l.first] = pose(l.first, q);
  }
  bool isActiveLinkName(const std::string& n) const override
  {
    auto it = links.find(n);
    return it != links.end() && !it->second.dp.empty();
  }
  bool hasLinkName(const std::string& n) const override { return links.count(n) != 0; }
  std::string getBaseLinkName() const override { return base; }
  long numJoints() const override { return dof; }
};
}  // namespace hu
