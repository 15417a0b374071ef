// A set of optimisation variables made of nodes, each with one vector variable, optionally preceded by a scalar variable.
#pragma once
#include "util.h"
#include "hash_stub.h"
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>

namespace hu
{
struct Traj
{
  std::shared_ptr<trajopt_ifopt::NodesVariables> vars;
  std::vector<std::shared_ptr<const trajopt_ifopt::Var>> pos;
  std::vector<Eigen::Index> col;  // first column of each position variable, derived from the construction order
  Eigen::VectorXd x;
  int n{ 0 };
};

/** layout: 0 positions only, 1 a scalar before the positions of every node, 2 a scalar after them */
inline Traj traj(const std::string& nm, int steps, int dof, int layout, const Eigen::VectorXd* x0 = nullptr)
{
  using namespace trajopt_ifopt;
  Traj t;
  t.n = steps * (dof + (layout != 0 ? 1 : 0));
  t.x = x0 ? *x0 : vec(nm, t.n);
  std::vector<std::unique_ptr<Node>> nodes;
  int at = 0;
  std::vector<std::string> names;
  for (int j = 0; j < dof; ++j)
    names.push_back("j" + std::to_string(j));
  for (int i = 0; i < steps; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    if (layout == 1)
      {
      node->addVar("dt", 0.0, NoBound);
      ++at;
    }
    t.col.push_back(at);
    t.pos.push_back(node->addVar("position", names, Eigen::VectorXd::Zero(dof),
                                 std::vector<Bounds>(static_cast<std::size_t>(dof), NoBound)));
    at += dof;
    if (layout == 2)
    {
      node->addVar("dt", 0.0, NoBound);
      ++at;
    }
    nodes.push_back(std::move(node));
  }
  t.vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
  t.vars->setVariables(t.x);
  return t;
}

/** an affine constraint g = A x + c with given bounds and coefficients; rows can change on update */
struct AffineCnt : trajopt_ifopt::ConstraintSet
{
  Eigen::MatrixXd A;
  Eigen::VectorXd c, w;
  std::vector<trajopt_ifopt::Bounds> b;
  int updates{ 0 };
  AffineCnt(std::string nm, Eigen::MatrixXd A_, Eigen::VectorXd c_, Eigen::VectorXd w_, std::vector<trajopt_ifopt::Bounds> b_)
    : ConstraintSet(std::move(nm), static_cast<int>(A_.rows())), A(std::move(A_)), c(std::move(c_)), w(std::move(w_)), b(std::move(b_))
  {
    non_zeros_ = A.size();
  }
  AffineCnt(std::string nm, bool dynamic, Eigen::MatrixXd A_, Eigen::VectorXd c_, Eigen::VectorXd w_, std::vector<trajopt_ifopt::Bounds> b_)
    : ConstraintSet(std::move(nm), dynamic), A(std::move(A_)), c(std::move(c_)), w(std::move(w_)), b(std::move(b_))
  {
    non_zeros_ = A.size();
    rows_ = static_cast<int>(A.rows());
  }
  int update() override
  {
    ++updates;
    rows_ = static_cast<int>(A.rows());
    non_zeros_ = A.size();
    return rows_;
  }
  Eigen::VectorXd getValues() const override
  {
    Eigen::VectorXd x = variables_->getValues(), g = c;
    for (Eigen::Index i = 0; i < A.rows(); ++i)
      for (Eigen::Index j = 0; j < A.cols(); ++j)
        g(i) += A(i, j) * x(j);
    return g;
  }
  Eigen::VectorXd getCoefficients() const override { return w; }
  std::vector<trajopt_ifopt::Bounds> getBounds() const override { return b; }
  trajopt_ifopt::Jacobian getJacobian() const override
  {
    trajopt_ifopt::Jacobian J(A.rows(), A.cols());
    for (Eigen::Index i = 0; i < A.rows(); ++i)
      for (Eigen::Index j = 0; j < A.cols(); ++j)
        if (sym::is_symbolic(A(i, j)) || A(i, j) != 0)  // entries left at zero are not stored
          J.insert(i, j) = A(i, j);
    J.makeCompressed();
    return J;
  }
};
}  // namespace hu
