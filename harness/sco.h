#pragma once
#include "util.h"
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_vec_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/solver_interface.hpp>

namespace hs
{
using namespace sco;
inline VarVector vars(int n)
{
  VarVector v;
  for (int i = 0; i < n; ++i)
    v.emplace_back(std::make_shared<VarRep>(static_cast<std::size_t>(i), "x" + std::to_string(i), nullptr));
  return v;
}
/** up to `terms` terms over any of the variables (repeats allowed) */
inline AffExpr aff(const std::string& n, const VarVector& v, int terms, bool choose_size = true)
{
  AffExpr e(sym::real_in(n + "_const", -100, 100));
  const int k = choose_size ? sym::choose(n + "_terms", terms + 1) : terms;
  for (int i = 0; i < k; ++i)
  {
    e.vars.push_back(v[static_cast<std::size_t>(sym::choose(n + "_var" + std::to_string(i), static_cast<int>(v.size())))]);
    e.coeffs.push_back(sym::real_in(n + "_coeff" + std::to_string(i), -100, 100));
  }
  return e;
}
inline QuadExpr quad(const std::string& n, const VarVector& v, int lin, int terms, bool choose_size = true)
{
  QuadExpr q(aff(n + "_aff", v, lin, choose_size));
  const int k = choose_size ? sym::choose(n + "_qterms", terms + 1) : terms;
  for (int i = 0; i < k; ++i)
  {
    q.vars1.push_back(v[static_cast<std::size_t>(sym::choose(n + "_v1_" + std::to_string(i), static_cast<int>(v.size())))]);
    q.vars2.push_back(v[static_cast<std::size_t>(sym::choose(n + "_v2_" + std::to_string(i), static_cast<int>(v.size())))]);
    q.coeffs.push_back(sym::real_in(n + "_q" + std::to_string(i), -100, 100));
  }
  return q;
}
// independent evaluation
inline double val(const AffExpr& e, const DblVec& x)
{
  double s = e.constant;
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
    s += e.coeffs[i] * x[e.vars[i].var_rep->index];
  return s;
}
inline double val(const QuadExpr& e, const DblVec& x)
{
  double s = val(e.affexpr, x);
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
    s += e.coeffs[i] * x[e.vars1[i].var_rep->index] * x[e.vars2[i].var_rep->index];
  return s;
}
inline DblVec dbl(const std::string& n, int k, double lo = -100, double hi = 100)
{
  DblVec x;
  for (int i = 0; i < k; ++i)
    x.push_back(sym::real_in(n + std::to_string(i), lo, hi));
  return x;
}
}  // namespace hs
