#pragma once
#include "sym.h"
#include <trajopt_common/macros.h>
#include <cmath>
#include <exception>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <Eigen/Core>

namespace hu
{
constexpr double INF = std::numeric_limits<double>::infinity();

inline Eigen::VectorXd vec(const std::string& name, Eigen::Index n)
{
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v(i) = sym::real(name + std::to_string(i));
  return v;
}
inline Eigen::VectorXd vec_in(const std::string& name, Eigen::Index n, double lo, double hi)
{
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v(i) = sym::real_in(name + std::to_string(i), lo, hi);
  return v;
}
/** whether f throws a std::exception */
template <class F>
bool throws(F f)
{
  try
  {
    f();
  }
  catch (const std::exception&)
  {
    return true;
  }
  return false;
}
inline double absv(double x) { return x < 0 ? -x : x; }
inline double pos(double x) { return x > 0 ? x : 0.0; }
/** distance of v to [lo, hi]; branches on the comparison */
inline double dist(double v, double lo, double hi) { return v < lo ? lo - v : (v > hi ? v - hi : 0.0); }
}  // namespace hu
