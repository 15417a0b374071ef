// Singularity terms of trajopt, compiled as in a release build (assertions off).
// @unit trajopt/src/kinematic_terms.cpp
// @unit trajopt/src/utils.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @flag -DNDEBUG
#include "kinematics.h"
#include <trajopt/kinematic_terms.hpp>
#include <trajopt/utils.hpp>
using namespace trajopt;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
/** Jacobian diag(a_i + b_i q_i) over the joints of the subset */
struct Diagonal : tesseract::kinematics::JointGroup
{
  using JointGroup::calcJacobian;
  std::vector<std::string> names;
  VectorXd a, b;
  VectorXd entries(const VectorXd& q) const
  {
    VectorXd d(a.size());
    for (Eigen::Index i = 0; i < a.size(); ++i)
      d(i) = a(i) + b(i) * q(i);
    return d;
  }
  MatrixXd calcJacobian(const Q& q, const std::string& l) const override
  {
    sym::check(l == "tool" && q.size() == a.size(), "singularity-request");
    return entries(q).asDiagonal();
  }
  std::vector<std::string> getJointNames() const override { return names; }
  long numJoints() const override { return static_cast<long>(names.size()); }
};
template <class T>
std::shared_ptr<const tesseract::kinematics::JointGroup> borrow(const T& t)
{
  return { &t, [](const tesseract::kinematics::JointGroup*) {} };
}
void singularity(int dof, bool subset, bool signs)
{
  Diagonal sub, super;
  sub.a.resize(dof);
  sub.b.resize(dof);
  for (int i = 0; i < dof; ++i)
  {
    sub.names.push_back(i ? "a" : "c");
    sub.a(i) = sym::real_in("a" + std::to_string(i), 4, 6) * (i ? 4 : 1);
    sub.b(i) = sym::real_in("b" + std::to_string(i), -2, 2);
    if (signs && sym::flag("negative"))
    {
      sub.a(i) = -sub.a(i);
    }
  }
  const double lambda = sym::real_in("lambda", 0.001, 1);
  VectorXd x;
  if (subset)
  {
    super.names = { "a", "b", "c" };
    x = hu::vec_in("x", 3, -1, 1);
  }
  else
    x = hu::vec_in("x", dof, -1, 1);
  VectorXd q(dof);
  for (int i = 0; i < dof; ++i)
    q(i) = subset ? x(i ? 0 : 2) : x(i);
  // joint 0 has the smallest singular value by construction
  const double d = sub.entries(q)(0), s = d < 0 ? -d : d;
  VectorXd e;
  MatrixXd J;
  if (subset)
  {
    e = AvoidSingularitySubsetErrCalculator(borrow(sub), borrow(super), "tool", lambda)(x);
    J = AvoidSingularitySubsetJacCalculator(borrow(sub), borrow(super), "tool", lambda)(x);
  }
  else
  {
    e = AvoidSingularityErrCalculator(borrow(sub), "tool", lambda)(x);
    J = AvoidSingularityJacCalculator(borrow(sub), "tool", lambda)(x);
  }
  sym::check(e.size() == 1 && J.rows() == 1 && J.cols() == x.size(), "singularity-size");
  sym::check_near(e(0), 1 / (s + lambda) - 1 / (0.1 + lambda), 1e-6, "singularity-value");
  const double slope = -(d < 0 ? -1.0 : 1.0) * sub.b(0) / ((s + lambda) * (s + lambda));
  for (Eigen::Index i = 0; i < x.size(); ++i)
    sym::check_near(J(0, i), i == (subset ? 2 : 0) ? slope : 0.0, 1e-6, "singularity-jacobian");
}
}  // namespace

SYM_HARNESS(singularity_one)
{
  sym::bound("one joint, 1x1 Jacobian a + b q, a in +-[4, 6], b in [-2, 2]; all joints or one of three");
  singularity(1, sym::flag("subset"), true);
}
SYM_HARNESS(singularity_two)
{
  sym::bound("two joints, diagonal Jacobian whose first entry is the smaller; all joints or two of three in another order");
  singularity(2, sym::flag("subset"), false);
}
