// What the callbacks of trajopt_sqp show: the variables and constraints they were given, as they are when they run.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/utils/trajopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
// @unit trajopt_common/src/utils.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/callbacks/clear_plotter.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/callbacks/joint_state_plotter.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/callbacks/wait_for_input.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/types.cpp
#include "nodes.h"
#include "kinematics.h"
#include "picture.h"
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_sqp/callbacks/cartesian_error_plotter.h>
#include <trajopt_sqp/callbacks/clear_plotter.h>
#include <trajopt_sqp/callbacks/joint_state_plotter.h>
#include <trajopt_sqp/callbacks/wait_for_input.h>
#include <trajopt_sqp/types.h>
using namespace trajopt_ifopt;
using namespace trajopt_sqp;
using Eigen::VectorXd;

namespace
{
/** the callbacks do not use the problem */
const QPProblem& nobody()
{
  static char storage[64];
  return *reinterpret_cast<const QPProblem*>(storage);
}
void move(hu::Traj& t, const std::string& s)
{
  t.x = hu::vec_in(s, t.n, -16, 16);
  t.vars->setVariables(t.x);
}
std::shared_ptr<const tesseract::kinematics::JointGroup> borrow(const tesseract::kinematics::JointGroup& t)
{
  return { &t, [](const tesseract::kinematics::JointGroup*) {} };
}
struct Solver : tesseract::scene_graph::StateSolver
{
};
}  // namespace

SYM_HARNESS(joint_states)
{
  sym::bound("1..3 nodes, 1..2 joints, positions alone or beside another variable; any subset of the nodes, added one by one or at once; two iterates of any values");
  const int n = 1 + sym::choose("nodes", 3), dof = 1 + sym::choose("dof", 2);
  hu::Traj t = hu::traj("x", n, dof, sym::choose("layout", 3));
  auto pic = std::make_shared<hu::Picture>();
  auto solver = std::make_unique<Solver>();
  const auto* raw = solver.get();
  JointStatePlottingCallback c(pic, std::move(solver));
  std::vector<std::size_t> shown;
  std::vector<std::shared_ptr<const Var>> several;
  const int some = sym::choose("subset", 1 << n);
  const bool at_once = sym::flag("at_once");
  for (int i = 0; i < n; ++i)
    if (some >> i & 1)
    {
      const auto k = static_cast<std::size_t>(i);
      shown.push_back(k);
      at_once ? several.push_back(t.pos[k]) : c.addVariableSet(t.pos[k]);
    }
  if (at_once)
    c.addVariableSet(several);
  for (int k = 0; k < 2; ++k)
  {
    move(t, "x" + std::to_string(k) + "_");
    pic->events.clear();
    sym::check(c.execute(nobody(), SQPResults()), "goes on");
    const bool one = pic->events.size() == 1 && pic->events[0].kind == 't';
    sym::check(one, "one trajectory");
    if (!one)
      sym::stop();
    const auto& e = pic->events[0];
    sym::check(e.solver == raw, "state solver");
    const bool all = e.t.states.size() == shown.size();
    sym::check(all, "one state per variable");
    if (!all)
      sym::stop();
    for (std::size_t i = 0; i < shown.size(); ++i)
    {
      const auto& s = e.t.states[i];
      std::vector<std::string> names;
      for (int j = 0; j < dof; ++j)
        names.push_back("j" + std::to_string(j));
      sym::check(s.joint_names == names && s.position.size() == dof, "joint names");
      for (int j = 0; j < dof; ++j)
        sym::check_eq(s.position(j), t.x(t.col[shown[i]] + j), "current values");
    }
  }
}

SYM_HARNESS(pose_errors)
{
  sym::bound("1..2 joints, 1..2 pose constraints on the nodes of a trajectory, source, target or both moving, offsets and joint values arbitrary; added one by one or at once; two iterates");
  const int dof = 1 + sym::choose("dof", 2), n = 2;
  hu::Traj t = hu::traj("x", n, dof, sym::choose("layout", 3));
  const int mode = sym::choose("moving", 3);
  hu::Chain arm(dof);
  mode != 1 ? (void)arm.moving("src", 2, dof == 1) : (void)arm.fixed("src", 2);
  mode != 0 ? (void)arm.moving("tgt", 1, dof == 1) : (void)arm.fixed("tgt", 1);
  const int m = 1 + sym::choose("constraints", 2);
  std::vector<hu::Iso> so, to;
  std::vector<std::size_t> step;
  std::vector<std::shared_ptr<const CartPosConstraint>> cnts;
  for (int i = 0; i < m; ++i)
  {
    const std::string s = std::to_string(i);
    so.push_back(hu::iso(hu::turn(i == 0 ? 3 : 0), hu::point("so" + s)));
    to.push_back(hu::iso(hu::turn(i == 0 ? 2 : 1), hu::point("to" + s)));
    step.push_back(static_cast<std::size_t>(sym::choose("node" + s, n)));
    cnts.push_back(std::make_shared<CartPosConstraint>(t.pos[step.back()], borrow(arm), "src", "tgt", so.back(), to.back()));
  }
  auto pic = std::make_shared<hu::Picture>();
  CartesianErrorPlottingCallback c(pic);
  if (sym::flag("at_once"))
    c.addConstraintSet(cnts);
  else
    for (const auto& k : cnts)
      c.addConstraintSet(k);
  for (int k = 0; k < 2; ++k)
  {
    move(t, "x" + std::to_string(k) + "_");
    pic->events.clear();
    sym::check(c.execute(nobody(), SQPResults()), "goes on");
    std::vector<hu::Picture::Event> axes, arrows;
    for (const auto& e : pic->events)
      (e.kind == 'a' ? axes : arrows).push_back(e);
    const bool all = axes.size() == 2 * cnts.size() && arrows.size() == cnts.size();
    sym::check(all, "two frames and an arrow per constraint");
    if (!all)
      sym::stop();
    for (std::size_t i = 0; i < cnts.size(); ++i)
    {
      const VectorXd q = t.x.segment(t.col[step[i]], dof);
      const hu::Iso s = arm.pose("src", q) * so[i], g = arm.pose("tgt", q) * to[i];
      hu::same_pose(axes[2 * i].pose, s, "source frame");
      hu::same_pose(axes[2 * i + 1].pose, g, "target frame");
      hu::same_point(arrows[i].from, s.translation(), "arrow from the source");
      hu::same_point(arrows[i].to, g.translation(), "arrow to the target");
      hu::same_pose(cnts[i]->getCurrentPose(), s, "current pose");
    }
  }
}

SYM_HARNESS(clear_and_wait)
{
  sym::bound("each callback run 1..3 times");
  auto pic = std::make_shared<hu::Picture>();
  ClearPlotterCallback c(pic);
  WaitForInputCallback w(pic);
  const bool clear = sym::flag("clear");
  SQPCallback& f = clear ? static_cast<SQPCallback&>(c) : w;
  const int n = 1 + sym::choose("times", 3);
  for (int i = 0; i < n; ++i)
    sym::check(f.execute(nobody(), SQPResults()), "goes on");
  sym::check(pic->events.size() == static_cast<std::size_t>(n), "once each time");
  for (const auto& e : pic->events)
    sym::check(e.kind == (clear ? 'x' : 'w'), "what it is for");
}
