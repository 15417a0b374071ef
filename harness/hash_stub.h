// The configuration hash as an arbitrary injective function of the call: every call gives a fresh value.
#pragma once
#include <trajopt_common/collision_utils.h>
namespace trajopt_common
{
inline std::size_t hu_counter = 1;
__attribute__((used)) std::size_t getHash(const void*, const Eigen::Ref<const Eigen::VectorXd>&) { return hu_counter++; }
__attribute__((used)) std::size_t getHash(const void*, const Eigen::Ref<const Eigen::VectorXd>&, const Eigen::Ref<const Eigen::VectorXd>&)
{
  return hu_counter++;
}
}  // namespace trajopt_common
