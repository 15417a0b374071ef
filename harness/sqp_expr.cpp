// Affine and quadratic expression vectors of the SQP solver.
// @unit trajopt_optimizers/trajopt_sqp/src/expressions.cpp
#include "util.h"
#include <Eigen/Sparse>
#include <trajopt_ifopt/core/eigen_types.h>
#include <trajopt_sqp/expressions.h>
using namespace trajopt_sqp;
using trajopt_ifopt::Jacobian;

namespace
{
Eigen::MatrixXd mat(const std::string& n, int r, int c)
{
  Eigen::MatrixXd M(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      M(i, j) = sym::real(n + std::to_string(i) + std::to_string(j));
  return M;
}
// pattern: bit (i*c+j) set = entry stored
Jacobian sparse(const Eigen::MatrixXd& M, int pattern)
{
  Jacobian J(M.rows(), M.cols());
  for (Eigen::Index i = 0; i < M.rows(); ++i)
    for (Eigen::Index j = 0; j < M.cols(); ++j)
      if (pattern >> (i * M.cols() + j) & 1)
        J.insert(i, j) = M(i, j);
  J.makeCompressed();
  return J;
}
Eigen::MatrixXd masked(const Eigen::MatrixXd& M, int pattern)
{
  Eigen::MatrixXd R = Eigen::MatrixXd::Zero(M.rows(), M.cols());
  for (Eigen::Index i = 0; i < M.rows(); ++i)
    for (Eigen::Index j = 0; j < M.cols(); ++j)
      if (pattern >> (i * M.cols() + j) & 1)
        R(i, j) = M(i, j);
  return R;
}
}  // namespace

SYM_HARNESS(affine)
{
  const int N = sym::thorough() ? 3 : 2;
  sym::bound("1..2 expressions over 1.." + std::to_string(N) + " variables, any sparsity pattern, any expansion and evaluation point; object reused once");
  int m = 1 + sym::choose("m", 2), n = 1 + sym::choose("n", N);
  AffExprs a;
  if (sym::flag("reused"))
  {
    Eigen::MatrixXd J0 = mat("K", 1, n);
    a.create(hu::vec("e", 1), sparse(J0, (1 << n) - 1), hu::vec("y", n));
  }
  int pat = sym::choose("pattern", 1 << (m * n));
  Eigen::MatrixXd J = mat("J", m, n), M = masked(J, pat);
  Eigen::VectorXd f = hu::vec("f", m), x0 = hu::vec("x", n), x = hu::vec("z", n), out(m);
  a.create(f, sparse(J, pat), x0);
  a.values(out, x);
  for (int i = 0; i < m; ++i)
  {
    double s = f(i);
    for (int j = 0; j < n; ++j)
      s += M(i, j) * (x(j) - x0(j));
    sym::check_eq(out(i), s, "tangent-plane");
  }
}

SYM_HARNESS(square)
{
  const int N = sym::thorough() ? 3 : 2;
  sym::bound("1..2 expressions over 1.." + std::to_string(N) + " variables, sparsity patterns, any non-negative weights; target reused once");
  int m = 1 + sym::choose("m", 2), n = 1 + sym::choose("n", N);
  QuadExprs q;
  AffExprs a;
  if (sym::flag("reused"))
  {
    a.create(hu::vec("e", 1), sparse(mat("K", 1, n), (1 << n) - 1), hu::vec("y", n));
    Eigen::VectorXd w0 = Eigen::VectorXd::Constant(1, 2.25);
    a.square(q, w0);
  }
  int pat = sym::choose("pattern", 1 << (m * n));
  Eigen::MatrixXd J = mat("J", m, n), M = masked(J, pat);
  Eigen::VectorXd f = hu::vec("f", m), w = hu::vec_in("w", m, 0, 100), x = hu::vec("z", n), out(m);
  a.create(f, sparse(J, pat), Eigen::VectorXd::Zero(n));
  a.square(q, w);
  q.values(out, x);
  double c = 0, total = 0;
  for (int i = 0; i < m; ++i)
  {
    double s = f(i);
    for (int j = 0; j < n; ++j)
      s += M(i, j) * x(j);
    sym::check_eq(out(i), w(i) * s * s, "squared-value");
    c += w(i) * f(i) * f(i);
    total += w(i) * s * s;
  }
  sym::check(q.objective_linear_coeffs.size() == n && q.objective_quadratic_coeffs.rows() == n && q.objective_quadratic_coeffs.cols() == n, "dims");
  const Eigen::MatrixXd H(q.objective_quadratic_coeffs);
  for (int j = 0; j < n; ++j)
  {
    double l = 0;
    for (int i = 0; i < m; ++i)
      l += 2 * w(i) * f(i) * M(i, j);
    sym::check_eq(q.objective_linear_coeffs(j), l, "objective-linear");
    for (int k = 0; k < n; ++k)
    {
      double h = 0;
      for (int i = 0; i < m; ++i)
        h += w(i) * M(i, j) * M(i, k);
      sym::check_eq(H(j, k), h, "objective-quadratic");
    }
  }
}

SYM_HARNESS(quadratic)
{
  const int N = sym::thorough() ? 3 : 2;
  sym::bound("1..2 expressions over 1.." + std::to_string(N) + " variables, each with or without a Hessian; object reused once");
  int m = 1 + sym::choose("m", 2), n = 1 + sym::choose("n", N);
  QuadExprs q;
  if (sym::flag("reused"))
    q.create(hu::vec("e", 1), sparse(mat("K", 1, n), (1 << n) - 1), { sparse(mat("L", n, n), (1 << (n * n)) - 1) }, hu::vec("y", n));
  Eigen::MatrixXd J = mat("J", m, n);
  Eigen::VectorXd f = hu::vec("f", m), x0 = hu::vec("x", n), x = hu::vec("z", n), out(m);
  std::vector<Jacobian> hs;
  std::vector<Eigen::MatrixXd> Hs;
  for (int i = 0; i < m; ++i)
  {
    Eigen::MatrixXd H = mat("H" + std::to_string(i) + "_", n, n);
    for (int r = 0; r < n; ++r)
      for (int s = 0; s < r; ++s)
        H(r, s) = H(s, r);
    bool has = sym::flag("hessian" + std::to_string(i));
    if (!has)
      H.setZero();
    Hs.push_back(H);
    hs.push_back(sparse(H, has ? (1 << (n * n)) - 1 : 0));
    sym::cover(has ? "with-hessian" : "without-hessian");
  }
  q.create(f, sparse(J, (1 << (m * n)) - 1), hs, x0);
  q.values(out, x);
  for (int i = 0; i < m; ++i)
  {
    double s = f(i);
    for (int j = 0; j < n; ++j)
    {
      s += J(i, j) * (x(j) - x0(j));
      for (int k = 0; k < n; ++k)
        s += 0.5 * Hs[i](j, k) * (x(j) - x0(j)) * (x(k) - x0(k));
    }
    sym::check_eq(out(i), s, "taylor");
  }
}
