// Stand-in, see types.h.  almostEqualRelativeAndAbs follows tesseract's documented contract: the absolute difference is at
// most max_diff, or at most max_rel_diff times the larger magnitude.
#pragma once
#include "types.h"
#include "eigen_types.h"
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <unordered_map>
namespace tesseract::common
{
inline bool almostEqualRelativeAndAbs(double a, double b, double max_diff = 1e-6,
                                      double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff)
    return true;
  const double fa = std::fabs(a), fb = std::fabs(b);
  const double largest = fb > fa ? fb : fa;
  return diff <= largest * max_rel_diff;
}
inline Eigen::VectorXd concat(const Eigen::VectorXd& a, const Eigen::VectorXd& b)
{
  Eigen::VectorXd r(a.size() + b.size());
  r << a, b;
  return r;
}
inline void makeOrderedLinkPair(LinkNamesPair& pair, const std::string& a, const std::string& b)
{
  if (a <= b)
    pair = { a, b };
  else
    pair = { b, a };
}
template <typename MapType, typename ValueType>
bool isIdenticalMap(const MapType& a, const MapType& b, const std::function<bool(const ValueType&, const ValueType&)>& eq)
{
  if (a.size() != b.size())
    return false;
  for (const auto& e : a)
  {
    auto it = b.find(e.first);
    if (it == b.end() || !eq(e.second, it->second))
      return false;
  }
  return true;
}
inline void jacobianChangeRefPoint(Eigen::Ref<Eigen::MatrixXd> jacobian, const Eigen::Ref<const Eigen::Vector3d>& ref_point)
{
  for (Eigen::Index i = 0; i < jacobian.cols(); ++i)
  {
    const Eigen::Vector3d w = jacobian.col(i).tail(3);
    const Eigen::Vector3d c = w.cross(ref_point);
    jacobian(0, i) += c(0);
    jacobian(1, i) += c(1);
    jacobian(2, i) += c(2);
  }
}
// tesseract: same tolerances, component by component
inline bool almostEqualRelativeAndAbs(const Eigen::Ref<const Eigen::VectorXd>& a, const Eigen::Ref<const Eigen::VectorXd>& b,
                                      double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  if (a.size() != b.size())
    return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!almostEqualRelativeAndAbs(a(i), b(i), max_diff, max_rel_diff))
      return false;
  return true;
}
inline void jacobianChangeBase(Eigen::Ref<Eigen::MatrixXd> jacobian, const Eigen::Isometry3d& change_base)
{
  for (Eigen::Index i = 0; i < jacobian.cols(); ++i)
  {
    const Eigen::Vector3d v = jacobian.col(i).head(3), w = jacobian.col(i).tail(3);
    jacobian.col(i).head(3) = change_base.linear() * v;
    jacobian.col(i).tail(3) = change_base.linear() * w;
  }
}
// The pose error of tesseract is the translation and the rotation vector of t1^-1 t2.  The rotation vector is stood in for by
// the skew part of the rotation (its sine), which keeps what the callers rely on: a function of t1^-1 t2 alone, zero for
// equal orientations, odd under exchange of the arguments.
inline Eigen::VectorXd calcTransformError(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2)
{
  const Eigen::Matrix3d A = t1.linear().transpose() * t2.linear();
  Eigen::VectorXd e(6);
  e.head(3) = t1.linear().transpose() * (t2.translation() - t1.translation());
  e(3) = 0.5 * (A(2, 1) - A(1, 2));
  e(4) = 0.5 * (A(0, 2) - A(2, 0));
  e(5) = 0.5 * (A(1, 0) - A(0, 1));
  return e;
}
// distance of every component to its band
inline void applyTolerances(Eigen::VectorXd& e, const Eigen::Ref<const Eigen::VectorXd>& lower, const Eigen::Ref<const Eigen::VectorXd>& upper)
{
  if (lower.size() == 0 && upper.size() == 0)
    return;
  for (Eigen::Index i = 0; i < e.size(); ++i)
  {
    if (e(i) < lower(i))
      e(i) -= lower(i);
    else if (e(i) > upper(i))
      e(i) -= upper(i);
    else
      e(i) = 0;
  }
}
// change of the (toleranced) error when the source moves, and when both move
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower = {}, const Eigen::VectorXd& upper = {})
{
  Eigen::VectorXd a = calcTransformError(target, source), b = calcTransformError(target, source_perturbed);
  applyTolerances(a, lower, upper);
  applyTolerances(b, lower, upper);
  return b - a;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& target_perturbed,
                                                      const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower = {}, const Eigen::VectorXd& upper = {})
{
  Eigen::VectorXd a = calcTransformError(target, source), b = calcTransformError(target_perturbed, source_perturbed);
  applyTolerances(a, lower, upper);
  applyTolerances(b, lower, upper);
  return b - a;
}
}  // namespace tesseract::common
