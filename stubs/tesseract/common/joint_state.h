// Stand-in, see types.h
#pragma once
#include "eigen_types.h"
#include <string>
#include <vector>
namespace tesseract::common
{
struct JointState
{
  JointState() = default;
  JointState(std::vector<std::string> n, Eigen::VectorXd p) : joint_names(std::move(n)), position(std::move(p)) {}
  std::vector<std::string> joint_names;
  Eigen::VectorXd position, velocity, acceleration;
  double time{ 0 };
};
struct JointTrajectory
{
  std::vector<JointState> states;
  void push_back(const JointState& s) { states.push_back(s); }
  void reserve(std::size_t n) { states.reserve(n); }
  template <typename... A>
  void emplace_back(A&&... a) { states.emplace_back(std::forward<A>(a)...); }
  std::size_t size() const { return states.size(); }
  const JointState& operator[](std::size_t i) const { return states[i]; }
};
}  // namespace tesseract::common
