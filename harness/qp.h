// Components for the QP problem harnesses: arbitrary affine maps whose coefficients the harness may change at any time (so a
// component stands for an arbitrary smooth function seen through its value and Jacobian at the current point).
#pragma once
#include "nodes.h"
#include <trajopt_sqp/types.h>
namespace hu
{
enum Kind { SQUARED = 0, HINGE, ABSOLUTE, CONSTRAINT };
struct Comp
{
  Kind kind{};
  std::shared_ptr<AffineCnt> f;
  bool dynamic{ false };
  int rows() const { return static_cast<int>(f->A.rows()); }
};

/** non-zero entry with |a| in [1e-3, 100]; its sign is fixed per position so that both signs occur */
inline double entry(const std::string& n, int parity)
{
  return parity & 1 ? sym::real_in(n, -100, -1e-3) : sym::real_in(n, 1e-3, 100);
}
inline double least_weight = 0.5;  // zero weights cost extra paths; not every harness needs them
inline void fill(AffineCnt& f, const std::string& nm, int rows, int n, int parity, const std::string& types)
{
  f.A = Eigen::MatrixXd(rows, n);
  f.c = Eigen::VectorXd(rows);
  f.w = Eigen::VectorXd(rows);
  f.b.clear();
  for (int i = 0; i < rows; ++i)
  {
    for (int j = 0; j < n; ++j)
      f.A(i, j) = entry(nm + "_A" + std::to_string(i) + std::to_string(j), parity + i + j);
    f.c(i) = sym::real(nm + "_c" + std::to_string(i));
    f.w(i) = sym::real_in(nm + "_w" + std::to_string(i), least_weight, 100);
    double t = sym::real_in(nm + "_t" + std::to_string(i), -1e3, 1e3);
    char ty = types[static_cast<std::size_t>(i) % types.size()];
    f.b.emplace_back(ty == 'u' ? -INF : t, ty == 'l' ? INF : t);
  }
}
inline Comp comp(const std::string& nm, Kind k, bool dynamic, int rows, int n, int parity, const std::string& types)
{
  Comp c;
  c.kind = k;
  c.dynamic = dynamic;
  Eigen::MatrixXd A(rows, n);
  std::vector<trajopt_ifopt::Bounds> b;
  A.setZero();
  c.f = dynamic ? std::make_shared<AffineCnt>(nm, true, A, Eigen::VectorXd::Zero(rows), Eigen::VectorXd::Zero(rows), b) :
                  std::make_shared<AffineCnt>(nm, A, Eigen::VectorXd::Zero(rows), Eigen::VectorXd::Zero(rows), b);
  fill(*c.f, nm, rows, n, parity, types);
  return c;
}
/** the rows given depend on one variable each (numbered from 1), or on none (0); other rows stay dense */
inline Comp only(Comp c, const std::vector<int>& vars)
{
  for (std::size_t i = 0; i < vars.size(); ++i)
    for (Eigen::Index j = 0; j < c.f->A.cols(); ++j)
      if (j + 1 != vars[i])
        c.f->A(static_cast<Eigen::Index>(i), j) = 0;
  return c;
}
/** another linearisation of the same function: new values and slopes where it depends on a variable, same limits and weights */
inline void refresh(AffineCnt& f, const std::string& nm, int parity)
{
  for (Eigen::Index i = 0; i < f.A.rows(); ++i)
  {
    for (Eigen::Index j = 0; j < f.A.cols(); ++j)
      if (sym::is_symbolic(f.A(i, j)) || f.A(i, j) != 0)
        f.A(i, j) = entry(nm + "_A" + std::to_string(i) + std::to_string(j), parity + static_cast<int>(i + j));
    f.c(i) = sym::real(nm + "_c" + std::to_string(i));
  }
}
/** the first entry may have any sign and size, zero included */
inline Comp wide(Comp c)
{
  c.f->A(0, 0) = sym::real_in(c.f->getName() + "_any", -1, 1);
  return c;
}
inline double value(const AffineCnt& f, int i, const Eigen::VectorXd& x)
{
  double s = f.c(i);
  for (Eigen::Index j = 0; j < x.size(); ++j)
    s += f.A(i, j) * x(j);
  return s;
}
}  // namespace hu
