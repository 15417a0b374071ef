// From the description of a planning problem to variables, initial trajectory, costs and constraints.
// @unit trajopt/src/problem_description.cpp
// @unit trajopt/src/trajectory_costs.cpp
// @unit trajopt/src/kinematic_terms.cpp
// @unit trajopt/src/collision_terms.cpp
// @unit trajopt/src/json_marshal.cpp
// @unit trajopt/src/utils.cpp
// @unit trajopt_common/src/collision_types.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/modeling_utils.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/num_diff.cpp
// @unit trajopt_sco/src/optimizers.cpp
// @flag -DHAVE_BPMPD
#include "problem.h"
#include <algorithm>
using namespace trajopt;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using sco::AffExpr;

SYM_HARNESS(construction)
{
  const int n = 1 + sym::choose("steps", 3), dof = 1 + sym::choose("dof", 2);
  sym::bound("1..3 steps, 1..2 joints, with and without time; any limits, current state, end point, given trajectory and time; up to one fixed step and joint besides the first, one of them possibly out of range");
  Plan p(n, dof);
  p.robot->lower = hu::vec_in("lower", dof, -100, 0);
  p.robot->upper = hu::vec_in("upper", dof, 0, 100);
  VectorXd now(dof);
  for (int j = 0; j < dof; ++j)
  {
    now(j) = sym::real_in("now" + std::to_string(j), -100, 100);
    p.scene->joints[p.robot->getJointNames()[static_cast<std::size_t>(j)]] = now(j);
  }
  bool valid = true;
  const bool time = sym::flag("time");
  BasicInfo& b = p.pci.basic_info;
  InitInfo& init = p.pci.init_info;
  if (time)
  {
    p.add(term<TotalTimeTermInfo>("time"), true, true);
    b.dt_lower_lim = sym::real_in("dt lower", 0.1, 1);
    b.dt_upper_lim = sym::real_in("dt upper", 1, 10);
    init.dt = sym::real_in("dt", 0.1, 10);
  }
  MatrixXd want(n, dof);
  const int type = sym::choose("init", 3);
  if (type == 0)
  {
    init.type = InitInfo::STATIONARY;
    for (int i = 0; i < n; ++i)
      want.row(i) = now.transpose();
  }
  else if (type == 1)
  {
    init.type = InitInfo::JOINT_INTERPOLATED;
    const VectorXd end = hu::vec_in("end", dof, -100, 100);
    sym::assume(n > 1);
    const int shape = sym::choose("shape", 3);
    if (shape == 0)
      init.data = end;
    else if (shape == 1)
      init.data = end.transpose();
    else
      init.data = MatrixXd::Zero(dof + 1, 1);
    valid = valid && shape != 2;
    for (int i = 0; i < n; ++i)
      want.row(i) = (now + (end - now) * (double(i) / (n - 1))).transpose();
  }
  else
  {
    init.type = InitInfo::GIVEN_TRAJ;
    const int shape = sym::choose("shape", 3);
    MatrixXd d(n + (shape == 1 ? 1 : 0), dof + (shape == 2 ? 1 : 0));
    for (Eigen::Index i = 0; i < d.rows(); ++i)
      for (Eigen::Index j = 0; j < d.cols(); ++j)
        d(i, j) = sym::real_in("given" + std::to_string(i) + std::to_string(j), -100, 100);
    init.data = d;
    valid = valid && shape == 0;
    want = d.topLeftCorner(n, dof);
  }
  std::vector<std::vector<bool>> fixed(static_cast<std::size_t>(n), std::vector<bool>(static_cast<std::size_t>(dof), false));
  auto ok = [](int v, int size) { return v >= 0 && v < size; };
  auto fix_step = [&](int i) {
    b.fixed_timesteps.push_back(i);
    valid = valid && ok(i, n);
    if (ok(i, n))
      for (int j = 0; j < dof; ++j)
        fixed[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] = true;
  };
  if (sym::flag("fix first"))
    fix_step(0);
  if (const int k = sym::choose("fix step", n + 2))  // -1, 1 .. n
  {
    if (k != 2 || b.fixed_timesteps.empty())
      fix_step(k - 2);
  }
  if (const int k = sym::choose("fix joint", dof + 3))  // -1, 0 .. dof
  {
    b.fixed_dofs.push_back(k - 2);
    valid = valid && ok(k - 2, dof);
    if (ok(k - 2, dof))
      for (auto& r : fixed)
        r[static_cast<std::size_t>(k - 2)] = true;
  }
  const TrajOptProb::Ptr prob = p.tryBuild();
  sym::check((prob != nullptr) == valid, valid ? "refused though valid" : "accepted though invalid");
  if (prob == nullptr || !valid)
  {
    sym::cover("refused");
    return;
  }
  sym::cover("built");
  const hs::Mock& m = *g_model;
  const int cols = dof + (time ? 1 : 0);
  sym::check(prob->GetNumSteps() == n && prob->GetNumDOF() == cols && prob->GetHasTime() == time, "size");
  sym::check(static_cast<int>(prob->getNumVars()) == n * cols && static_cast<int>(m.vs.size()) == n * cols, "variables");
  sym::check(prob->GetKin() == p.pci.kin && prob->GetEnv() == p.pci.env, "robot and scene");
  if (static_cast<int>(m.vs.size()) != n * cols || prob->GetNumSteps() != n || prob->GetNumDOF() != cols)
    return;
  const TrajArray got = prob->GetInitTraj();
  sym::check(got.rows() == n && got.cols() == cols, "initial trajectory");
  std::vector<int> eqs(m.vs.size(), 0);
  for (const auto& c : m.cs)
  {
    sym::check(c.eq && !c.removed && c.e.vars.size() == 1 && c.e.coeffs.size() == 1, "fixing row");
    if (c.e.vars.size() != 1)
      continue;
    const std::size_t v = c.e.vars[0].var_rep->index;
    const int i = static_cast<int>(v) / cols, j = static_cast<int>(v) % cols;
    ++eqs[v];
    if (j < dof)
      sym::check_eq(c.e.constant, -want(i, j) * c.e.coeffs[0], "fixed to the initial value");
    sym::check(c.e.coeffs[0] != 0, "fixing row");
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < cols; ++j)
    {
      const std::size_t v = static_cast<std::size_t>(i * cols + j);
      sym::check(prob->GetVar(i, j).var_rep->index == v, "layout");
      sym::check_eq(prob->getLowerBounds()[v], j < dof ? p.robot->lower(j) : b.dt_lower_lim, "lower bound");
      sym::check_eq(prob->getUpperBounds()[v], j < dof ? p.robot->upper(j) : b.dt_upper_lim, "upper bound");
      sym::check_eq(m.vs[v].lb, j < dof ? p.robot->lower(j) : b.dt_lower_lim, "lower bound of the model");
      sym::check_eq(m.vs[v].ub, j < dof ? p.robot->upper(j) : b.dt_upper_lim, "upper bound of the model");
      sym::check_near(got(i, j), j < dof ? want(i, j) : init.dt, 1e-12, "initial value");
      sym::check(eqs[v] == (j < dof && fixed[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] ? 1 : 0), "fixed exactly where asked for");
    }
  sym::require_cover("built");
  sym::require_cover("refused");
}

namespace
{
/** a joint term of either kind, evaluated at a trajectory */
struct JointTerm
{
  int order, dof, n, first, last;
  bool exact;  // tolerances all zero
  DblVec coeffs, targets, upper, lower;
  int lo{ 0 }, hi{ 0 };  // steps after adjustment, one difference over order + 1 of them
  template <class T>
  std::shared_ptr<T> make()
  {
    auto t = term<T>("joint term");
    t->coeffs = coeffs;
    t->targets = targets;
    t->upper_tols = upper;
    t->lower_tols = lower;
    t->first_step = first;
    t->last_step = last;
    return t;
  }
  TermInfo::Ptr make()
  {
    if (order == 0)
      return make<JointPosTermInfo>();
    if (order == 1)
      return make<JointVelTermInfo>();
    if (order == 2)
      return make<JointAccTermInfo>();
    return make<JointJerkTermInfo>();
  }
  void range()
  {
    lo = std::min(first, n - 1);
    hi = last < 0 ? n - 1 : std::min(last, n - 1);
    if (hi < lo)
      std::swap(lo, hi);
    const bool single = lo == hi;
    lo = std::min(lo, n - 1 - order);
    if (single)
      hi = lo + order;
  }
};
double difference(const std::function<double(int)>& q, int order, int i)
{
  if (order == 0)
    return q(i);
  return difference(q, order - 1, i + 1) - difference(q, order - 1, i);
}
}  // namespace

SYM_HARNESS(joint_term_steps)
{
  JointTerm t;
  t.dof = 1;
  t.order = sym::choose("order", 4);
  t.n = 1 + sym::choose("steps", t.order + (sym::thorough() ? 4 : 3));
  sym::bound("1 joint, position to jerk, trajectories of up to 3 (4) steps more than one difference needs, every first and last step in and beyond them");
  t.first = sym::choose("first", t.n + 2);
  t.last = sym::choose("last", t.n + 3) - 1;
  t.targets = { sym::real_in("target", -10, 10) };
  t.exact = true;
  const bool is_cost = sym::flag("cost");
  Plan p(t.n, 1);
  p.add(t.make(), is_cost);
  const TrajOptProb::Ptr prob = p.tryBuild();
  if (t.n < t.order + 1)
  {
    sym::check(prob == nullptr, "trajectory too short, yet accepted");
    sym::cover("too short");
    return;
  }
  t.range();
  if (t.hi - t.lo < t.order)
  {
    // a range given explicitly that holds no difference
    sym::check(prob == nullptr, "range too short, yet accepted");
    return;
  }
  sym::check(prob != nullptr, "refused");
  if (prob == nullptr)
    return;
  sym::cover("evaluated");
  DblVec x;
  for (int i = 0; i < t.n; ++i)
    x.push_back(sym::real_in("x" + std::to_string(i), -20, 20));
  double want = 0;
  for (int i = t.lo; i + t.order <= t.hi; ++i)
  {
    const double d = difference([&](int k) { return x[p.at(k, 0)]; }, t.order, i) - t.targets[0];
    want += d * d;
  }
  sym::check(prob->getCosts().size() == (is_cost ? 1 : 0) && prob->getEqConstraints().size() == (is_cost ? 0 : 1) && prob->getIneqConstraints().empty(), "one term");
  sym::check_eq(is_cost ? cost(*prob, x) : violation(*prob, x), want, "value over the steps");
  sym::require_cover("evaluated");
  sym::require_cover("too short");
}

SYM_HARNESS(joint_term_parameters)
{
  sym::bound("2 joints, position to jerk over the whole of a trajectory of 1 step more than needed; any coefficients, targets, tolerances, given once for all joints, per joint, or left out; wrong sizes; each difference beyond the same side of the tolerances");
  JointTerm t;
  t.dof = 2;
  t.order = sym::choose("order", 4);
  t.n = t.order + 2;
  t.first = 0;
  t.last = -1;
  const bool is_cost = sym::flag("cost");
  Plan p(t.n, 2);
  bool valid = true;
  // 0: left out, 1: one for all, 2: per joint, 3: wrong
  const char* names[4] = { "coeff", "target", "upper", "lower" };
  DblVec* given[4] = { &t.coeffs, &t.targets, &t.upper, &t.lower };
  const double lo[4] = { 0.5, -1, 0.25, -1 }, hi[4] = { 2, 1, 1, -0.25 }, unset[4] = { 1, 0, 0, 0 };
  double v[4][2];
  int odd = sym::choose("which differs", 5);
  const int rest = 1 + sym::choose("rest", 2);
  const int how = odd == 4 ? rest : sym::choose("differs", 4);
  for (int k = 0; k < 4; ++k)
  {
    const int h = k == odd ? how : rest;
    for (int j = 0; j < 2; ++j)
      v[k][j] = unset[k];
    if (h == 0)
    {
      valid = valid && k != 1;  // there is no target to fall back to
      continue;
    }
    const int size = h == 1 ? 1 : h == 2 ? 2 : 3;
    valid = valid && h != 3;
    for (int j = 0; j < size; ++j)
      given[k]->push_back(sym::real_in(std::string(names[k]) + std::to_string(j), lo[k], hi[k]));
    for (int j = 0; j < 2; ++j)
      v[k][j] = (*given[k])[size == 1 ? 0 : static_cast<std::size_t>(j)];
  }
  const bool exact = sym::flag("exact");
  if (exact)
  {
    for (int k = 2; k < 4; ++k)
      for (int j = 0; j < 2; ++j)
        v[k][j] = 0;
    t.upper.assign(t.upper.size(), 0);
    t.lower.assign(t.lower.size(), 0);
  }
  p.add(t.make(), is_cost);
  const TrajOptProb::Ptr prob = p.tryBuild();
  sym::check((prob != nullptr) == valid, valid ? "refused though valid" : "accepted though invalid");
  if (prob == nullptr || !valid)
  {
    sym::cover("refused");
    return;
  }
  sym::cover("evaluated");
  // trajectory with differences of 8 or more (or -8 or less)
  const double side = sym::flag("above") ? 1 : -1;
  DblVec x(static_cast<std::size_t>(2 * t.n));
  for (int i = 0; i < t.n; ++i)
    for (int j = 0; j < 2; ++j)
      x[p.at(i, j)] = side * (t.order == 0 ? 8 + i + 2 * j : t.order == 1 ? 8 * (i * i + i) + 10 * i * j : t.order == 2 ? 4 * i * i + 2 * i * i * i + 5 * i * i * j : 4 * i * i * i + 3 * i * i * i * j);
  double want = 0;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
    {
      const double d = difference([&](int k) { return x[p.at(k, j)]; }, t.order, i);
      sym::check(side * d >= 8, "harness: difference");
      if (exact)
        want += v[0][j] * (d - v[1][j]) * (d - v[1][j]);
      else
        want += v[0][j] * (side > 0 ? d - v[1][j] - v[2][j] : v[3][j] + v[1][j] - d);
    }
  const std::size_t c = prob->getCosts().size(), e = prob->getEqConstraints().size(), q = prob->getIneqConstraints().size();
  sym::check(c == (is_cost ? 1 : 0) && e == (!is_cost && exact ? 1 : 0) && q == (!is_cost && !exact ? 1 : 0), "kind of term");
  sym::check((is_cost ? prob->getCosts()[0]->name() : prob->getConstraints()[0]->name()) == "joint term", "name");
  sym::check_eq(is_cost ? cost(*prob, x) : violation(*prob, x), want, "value");
  sym::require_cover("refused");
  sym::require_cover("evaluated");
}

SYM_HARNESS(time_terms)
{
  sym::bound("2 joints, 2..4 steps, any coefficients, targets, tolerances; joint velocity over any range; total time with any limit");
  const int n = 2 + sym::choose("steps", sym::thorough() ? 4 : 3);
  const bool is_cost = sym::flag("cost");
  Plan p(n, 2);
  const bool total = sym::flag("total time");
  DblVec x(static_cast<std::size_t>(3 * n));
  if (total)
  {
    auto t = term<TotalTimeTermInfo>("total");
    t->coeff = sym::real_in("coeff", 0.5, 10);
    const bool exact = sym::flag("exact");
    t->limit = exact ? 0 : sym::real_in("limit", 0.25, 20);
    const bool time = sym::flag("with time");
    p.add(t, is_cost, time);
    const TrajOptProb::Ptr prob = p.tryBuild();
    sym::check((prob != nullptr) == time, "refused exactly without time");
    if (prob == nullptr || !time)
      return;
    double sum = 0;
    for (int i = 0; i < n; ++i)
    {
      // the joints hold values that must not count
      x[p.at(i, 0)] = 0.125;
      x[p.at(i, 1)] = 0.0625;
      const double dt[5] = { 2, 0.5, 4, 0.25, 1 };
      x[p.at(i, 2)] = dt[i];
      if (i > 0)
        sum += 1 / dt[i];
    }
    const double over = sum > t->limit ? sum - t->limit : 0;
    const double want = exact ? (is_cost ? t->coeff * sum * sum : t->coeff * sum) : t->coeff * over;
    const std::size_t c = prob->getCosts().size(), e = prob->getEqConstraints().size(), q = prob->getIneqConstraints().size();
    sym::check(c == (is_cost ? 1 : 0) && e == (!is_cost && exact ? 1 : 0) && q == (!is_cost && !exact ? 1 : 0), "kind of total time term");
    sym::check_eq(is_cost ? cost(*prob, x) : violation(*prob, x), want, "total time");
    sym::cover("total time");
    return;
  }
  auto t = term<JointVelTermInfo>("vel");
  const bool exact = sym::flag("exact");
  t->first_step = sym::choose("first", n);
  t->last_step = sym::choose("last", n + 1) - 1;
  for (int j = 0; j < 2; ++j)
  {
    t->coeffs.push_back(sym::real_in("coeff" + std::to_string(j), 0.5, 2));
    t->targets.push_back(sym::real_in("target" + std::to_string(j), -1, 1));
    t->upper_tols.push_back(exact ? 0 : sym::real_in("upper" + std::to_string(j), 0.25, 1));
    t->lower_tols.push_back(exact ? 0 : sym::real_in("lower" + std::to_string(j), -1, -0.25));
  }
  JointTerm r;
  r.order = 1;
  r.n = n;
  r.first = t->first_step;
  r.last = t->last_step;
  r.range();
  const DblVec c = t->coeffs, g = t->targets, up = t->upper_tols, dn = t->lower_tols;
  p.add(t, is_cost, true);
  const TrajOptProb::Ptr prob = p.tryBuild();
  sym::check(prob != nullptr, "velocity term refused");
  if (prob == nullptr)
    return;
  const double side = sym::flag("above") ? 1 : -1;
  for (int i = 0; i < n; ++i)
  {
    x[p.at(i, 0)] = side * (8 * i * i + 12 * i);
    x[p.at(i, 1)] = side * (10 * i * i + 20 * i);
    const double dt[5] = { 64, 1, 2, 0.5, 1 };
    x[p.at(i, 2)] = dt[i];
  }
  double want = 0;
  for (int i = r.lo; i < r.hi; ++i)
    for (int j = 0; j < 2; ++j)
    {
      const double v = (x[p.at(i + 1, j)] - x[p.at(i, j)]) * x[p.at(i + 1, 2)];
      const std::size_t k = static_cast<std::size_t>(j);
      if (exact)
        want += is_cost ? 2 * c[k] * (v - g[k]) * (v - g[k]) : 2 * c[k] * side * (v - g[k]);
      else
        want += c[k] * (side > 0 ? v - g[k] - up[k] : dn[k] + g[k] - v);
    }
  const std::size_t nc = prob->getCosts().size(), e = prob->getEqConstraints().size(), q = prob->getIneqConstraints().size();
  sym::check(nc == (is_cost ? 2 : 0) && e == (!is_cost && exact ? 2 : 0) && q == (!is_cost && !exact ? 2 : 0), "kind of velocity term");
  sym::check_eq(is_cost ? cost(*prob, x) : violation(*prob, x), want, "velocity in time");
  sym::cover("velocity");
  sym::require_cover("velocity");
  sym::require_cover("total time");
}

namespace
{
/** the variables of a term are the joints of the given steps, in order */
bool over(Plan& p, const sco::VarVector& v, const std::vector<int>& steps)
{
  std::size_t k = 0;
  for (int i : steps)
    for (int j = 0; j < p.dof; ++j, ++k)
      if (k >= v.size() || v[k].var_rep->index != p.at(i, j))
        return false;
  return k == v.size();
}
DblVec trajectory(Plan& p, double lim = 10)
{
  DblVec x;
  for (int i = 0; i < p.n; ++i)
    for (int j = 0; j < p.cols(); ++j)
      x.push_back(sym::real_in("x" + std::to_string(i) + std::to_string(j), -lim, lim));
  return x;
}
VectorXd joints(Plan& p, const DblVec& x, int i)
{
  VectorXd q(p.dof);
  for (int j = 0; j < p.dof; ++j)
    q(j) = x[p.at(i, j)];
  return q;
}
}  // namespace

SYM_HARNESS(pose_terms)
{
  sym::bound("2 joints, 3 steps, static and moving target, any pose coefficients (some zero), frame offsets and joint values");
  const int n = 3;
  Plan p(n, 2);
  const bool dynamic = sym::flag("dynamic"), is_cost = sym::flag("cost");
  const int step = sym::choose("step", n);
  const int zero = sym::choose("zero", 7);
  const std::string target = dynamic ? "n" : "s";
  const hu::Iso so = hu::iso(hu::turn(1), hu::point("source", 2)), to = hu::iso(hu::turn(3), hu::point("target", 2));
  Eigen::VectorXd lo, up;
  Eigen::Vector3d pc, rc;
  std::vector<int> ind;
  DblVec c;
  for (int i = 0; i < 6; ++i)
  {
    const double k = (i == zero || i == (zero + 2) % 7) ? 0 : sym::real_in("coeff" + std::to_string(i), 0.5, 10);
    (i < 3 ? pc : rc)(i % 3) = k;
    if (i != zero && i != (zero + 2) % 7)
    {
      ind.push_back(i);
      c.push_back(k);
    }
  }
  auto fill = [&](auto t) {
    t->timestep = step;
    t->pos_coeffs = pc;
    t->rot_coeffs = rc;
    t->source_frame = "m";
    t->target_frame = target;
    t->source_frame_offset = so;
    t->target_frame_offset = to;
    t->lower_tolerance = lo;
    t->upper_tolerance = up;
    p.add(t, is_cost);
  };
  if (dynamic)
    fill(term<DynamicCartPoseTermInfo>("pose"));
  else
    fill(term<CartPoseTermInfo>("pose"));
  const TrajOptProb::Ptr prob = p.tryBuild();
  sym::check(prob != nullptr, "refused");
  if (prob == nullptr)
    return;
  sym::check(prob->getCosts().size() == (is_cost ? 1 : 0) && prob->getEqConstraints().size() == (is_cost ? 0 : 1) && prob->getIneqConstraints().empty(), "one term");
  const sco::VarVector vars = is_cost ? prob->getCosts()[0]->getVars() : prob->getConstraints()[0]->getVars();
  sym::check(over(p, vars, { step }), "joints of its step");
  sym::check((is_cost ? prob->getCosts()[0]->name() : prob->getConstraints()[0]->name()) == "pose", "name");
  const DblVec x = trajectory(p);
  const VectorXd q = joints(p, x, step);
  const Eigen::Isometry3d s = p.robot->pose("m", q) * so, t = p.robot->pose(target, q) * to;
  const VectorXd e = tesseract::common::calcTransformError(t, s);
  // the calculators themselves are judged elsewhere: here, that the right ones are applied to the right joints
  double want = 0;
  for (std::size_t k = 0; k < ind.size(); ++k)
  {
    want += c[k] * std::abs(e(ind[k]));
  }
  sym::check_eq(is_cost ? cost(*prob, x) : violation(*prob, x), want, "weighted pose error");
}

SYM_HARNESS(step_terms)
{
  sym::bound("2 joints, 2..4 steps, link displacement, user defined and singularity terms over every range of steps, fixed steps, with and without Jacobian");
  const int n = 2 + sym::choose("steps", 3);
  Plan p(n, 2);
  const int kind = sym::choose("kind", 3);
  const bool is_cost = sym::flag("cost");
  const int first = sym::choose("first", n), last = sym::choose("last", n);
  sym::assume(first <= last);
  std::vector<int> skip;
  std::vector<std::vector<int>> want;
  std::vector<std::vector<double>> asked;
  int penalty = 0;
  bool ineq = false;
  double coeff = sym::real_in("coeff", 0.5, 10), maxd = sym::real_in("max", 0.1, 1);
  if (kind == 0)
  {
    auto t = term<CartVelTermInfo>("vel");
    t->first_step = first;
    t->last_step = last;
    t->link = "m";
    t->max_displacement = maxd;
    p.add(t, is_cost);
    for (int i = first; i <= last && i + 1 < n; ++i)
      want.push_back({ i, i + 1 });
    ineq = true;
  }
  else if (kind == 1)
  {
    auto t = term<UserDefinedTermInfo>("user");
    t->first_step = first;
    t->last_step = last;
    const int f = sym::choose("fixed", n + 1);
    if (f < n)
      skip.push_back(f);
    t->fixed_steps = skip;
    penalty = sym::choose("penalty", 3);
    ineq = sym::flag("inequality");
    t->cost_penalty_type = penalty == 0 ? sco::SQUARED : penalty == 1 ? sco::ABS : sco::HINGE;
    t->constraint_type = ineq ? sco::INEQ : sco::EQ;
    t->coeff = VectorXd::Constant(1, coeff);
    t->error_function = [](const VectorXd& q) { return VectorXd::Constant(1, q(0) - 2 * q(1)); };
    if (sym::flag("jacobian"))
      t->jacobian_function = [](const VectorXd&) {
        MatrixXd J(1, 2);
        J << 1, -2;
        return J;
      };
    p.add(t, is_cost);
    for (int i = first; i <= last; ++i)
      if (i != f)
        want.push_back({ i });
  }
  else
  {
    auto t = term<AvoidSingularityTermInfo>("sing");
    t->first_step = first;
    t->last_step = last;
    t->link = "m";
    t->coeffs = { coeff };
    p.add(t, is_cost);
    for (int i = first; i <= last; ++i)
      want.push_back({ i });
    ineq = true;
  }
  const TrajOptProb::Ptr prob = p.tryBuild();
  sym::check(prob != nullptr, "refused");
  if (prob == nullptr)
    return;
  const std::size_t c = prob->getCosts().size(), e = prob->getEqConstraints().size(), q = prob->getIneqConstraints().size();
  sym::check(c == (is_cost ? want.size() : 0) && e == (!is_cost && !ineq ? want.size() : 0) && q == (!is_cost && ineq ? want.size() : 0), "one term per step");
  if ((is_cost ? c : e + q) != want.size())
    return;
  for (std::size_t k = 0; k < want.size(); ++k)
    sym::check(over(p, is_cost ? prob->getCosts()[k]->getVars() : prob->getConstraints()[k]->getVars(), want[k]), "joints of its steps");
  sym::cover(kind == 0 ? "displacement" : kind == 1 ? "user" : "singularity");
  if (kind == 2)
    return;
  DblVec x(static_cast<std::size_t>(2 * n));
  for (int i = 0; i < n; ++i)
  {
    x[p.at(i, 0)] = 3 * i * i - 2 * i;
    x[p.at(i, 1)] = i * i - 5;
  }
  double v = 0;
  for (const auto& w : want)
  {
    const VectorXd a = joints(p, x, w[0]);
    if (kind == 1)
    {
      const double r = a(0) - 2 * a(1);
      const double m = is_cost ? (penalty == 0 ? r * r : penalty == 1 ? std::abs(r) : hu::pos(r)) : ineq ? hu::pos(r) : std::abs(r);
      v += coeff * m;
      continue;
    }
    const Eigen::Vector3d d = p.robot->pose("m", joints(p, x, w[1])).translation() - p.robot->pose("m", a).translation();
    for (int i = 0; i < 3; ++i)
      for (double s : { 1.0, -1.0 })
        v += is_cost ? std::abs(s * d(i) - maxd) : hu::pos(s * d(i) - maxd);
  }
  sym::check_eq(is_cost ? cost(*prob, x) : violation(*prob, x), v, "value");
  sym::require_cover("displacement");
  sym::require_cover("user");
  sym::require_cover("singularity");
}

SYM_HARNESS(collision_terms)
{
  sym::bound("1 joint, 1..4 steps, all evaluators, every range of steps, any fixed steps, one contact of any distance below the margin");
  const int n = 1 + sym::choose("steps", 4);
  Plan p(n, 1);
  const bool is_cost = sym::flag("cost");
  const CollisionEvaluatorType types[4] = { CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
  const int type = sym::choose("type", 4);
  const int first = sym::choose("first", n), last = sym::choose("last", n);
  sym::assume(first <= last);
  auto t = term<CollisionTermInfo>("collision");
  t->first_step = first;
  t->last_step = last;
  std::vector<bool> fixed;
  for (int i = 0; i < n; ++i)
  {
    fixed.push_back(sym::flag("fixed" + std::to_string(i)));
    if (fixed.back())
      t->fixed_steps.push_back(i);
  }
  const double margin = sym::real_in("margin", 1, 2), coeff = sym::real_in("coeff", 1, 10), d = sym::real_in("distance", -5, 0.5);
  p.w.margins = tesseract::common::CollisionMarginData(margin);
  t->config = TrajOptCollisionConfig(margin, coeff, {}, types[type], 100);
  t->config.collision_margin_buffer = 0;
  p.add(t, is_cost);
  const TrajOptProb::Ptr prob = p.tryBuild();
  bool valid = true;
  std::vector<int> want;
  for (int i = first; i < (type == 0 ? last + 1 : last); ++i)
  {
    if (type == 0)
    {
      if (!fixed[static_cast<std::size_t>(i)])
        want.push_back(i);
      continue;
    }
    valid = valid && !(fixed[static_cast<std::size_t>(i)] && fixed[static_cast<std::size_t>(i + 1)]);
    want.push_back(i);
  }
  sym::check((prob != nullptr) == valid, valid ? "refused though valid" : "two adjacent fixed steps accepted");
  if (prob == nullptr || !valid)
  {
    sym::cover("refused");
    return;
  }
  sym::cover("built");
  const std::size_t c = prob->getCosts().size(), q = prob->getIneqConstraints().size();
  sym::check(c == (is_cost ? want.size() : 0) && q == (is_cost ? 0 : want.size()) && prob->getEqConstraints().empty(), "one term per step");
  if ((is_cost ? c : q) != want.size())
    return;
  DblVec x;
  for (int i = 0; i < n; ++i)
    x.push_back(i * i + 3 * i);
  p.w.answer = [&](ContactResultMap& m, int test) {
    if (type == 1 && test % 2 != 0)
      return;  // a sampled motion is tested at both ends: the contact is at the first
    ContactResult r;
    r.link_names = { "m", "s" };
    r.shape_id = { 0, 0 };
    r.subshape_id = { -1, -1 };
    r.distance = d;
    r.normal = Eigen::Vector3d(1, 0, 0);
    if (type > 1)
    {
      r.cc_type[0] = CC::CCType_Between;
      r.cc_time[0] = 0.25;
    }
    m.addContactResult({ "m", "s" }, r);
  };
  auto pose = [&](int i) { return p.robot->pose("m", joints(p, x, i)).translation()(0); };
  for (std::size_t k = 0; k < want.size(); ++k)
  {
    const int i = want[k];
    p.w.tests.clear();
    const bool free0 = !fixed[static_cast<std::size_t>(i)], free1 = type != 0 && !fixed[static_cast<std::size_t>(i + 1)];
    // the contact at the start of a sampled motion does not count when the start is fixed
    const bool counts = !(type == 1 && !free0);
    double got = 0;
    std::vector<AffExpr> e;
    if (is_cost)
    {
      got = prob->getCosts()[k]->value(x);
      const auto o = prob->getCosts()[k]->convex(x, g_model.get());
      e = o->ineqs_;
      sym::check(prob->getCosts()[k]->name() == "collision_" + std::to_string(i), "name");
    }
    else
    {
      got = prob->getIneqConstraints()[k]->violation(x);
      const auto o = prob->getIneqConstraints()[k]->convex(x, g_model.get());
      e = o->ineqs_;
      sym::check(prob->getIneqConstraints()[k]->name() == "collision_" + std::to_string(i), "name");
    }
    sym::check_eq(got, counts ? coeff * (margin - d) : 0, "value");
    sym::check(p.w.tests.size() == (type == 1 ? 2 : 1), "tested once");
    if (!p.w.tests.empty() && p.w.tests[0].at.count("m") == 1)
    {
      sym::check_eq(p.w.tests[0].at["m"][0], pose(i), "robot at its step");
      if (type > 1)
        sym::check_eq(p.w.tests[0].at["m"][1], pose(i + 1), "robot at the next step");
    }
    sym::check(e.size() == (counts ? 1 : 0), "one row per contact");
    if (e.size() != 1 || !counts)
      continue;
    double c0 = 0, c1 = 0;
    for (std::size_t v = 0; v < e[0].vars.size(); ++v)
    {
      const std::size_t id = e[0].vars[v].var_rep->index;
      if (id == p.at(i, 0))
        c0 += e[0].coeffs[v];
      else if (type != 0 && id == p.at(i + 1, 0))
        c1 += e[0].coeffs[v];
      else
        sym::check(id >= static_cast<std::size_t>(n), "only the joints of its steps");
    }
    // moves with the joint at rate 1 against the normal
    const double s0 = type == 0 ? 1 : type == 1 ? 1 : 0.75, s1 = type > 1 ? 0.25 : 0;
    // the row of a cost may carry its coefficient in the objective
    sym::check_eq(c0 * (free1 ? s1 : 0), c1 * (free0 ? s0 : 0), "share of each step");
    sym::check((c0 != 0) == (free0 && s0 != 0) && (c1 != 0) == (free1 && s1 != 0), "derivative in the free steps only");
    if (!is_cost)
    {
      sym::check_near(hu::absv(c0), free0 ? coeff * s0 : 0, 1e-9, "derivative at its step");
      sym::check_near(hu::absv(c1), free1 ? coeff * s1 : 0, 1e-9, "derivative at the next step");
    }
  }
  sym::require_cover("built");
  sym::require_cover("refused");
}

namespace
{
Json::Value list(const std::string& n, int k, DblVec& out, double lo = -10, double hi = 10)
{
  Json::Value v(Json::arrayValue);
  for (int i = 0; i < k; ++i)
  {
    out.push_back(sym::real_in(n + std::to_string(i), lo, hi));
    v.append(Json::Value(out.back()));
  }
  return v;
}
void same(const DblVec& got, const DblVec& want, const char* label)
{
  sym::check(got.size() == want.size(), label);
  for (std::size_t i = 0; i < got.size() && i < want.size(); ++i)
    sym::check_eq(got[i], want[i], label);
}
template <class A, class B>
void same_v(const A& got, const B& want, const char* label)
{
  sym::check(static_cast<std::size_t>(got.size()) == static_cast<std::size_t>(want.size()), label);
  for (int i = 0; i < static_cast<int>(want.size()); ++i)
    sym::check_eq(got(i), want[static_cast<std::size_t>(i)], label);
}
struct Doc
{
  Json::Value root;
  int n{ 5 };
  Doc()
  {
    root["basic_info"]["n_steps"] = n;
    root["basic_info"]["manip"] = "arm";
    root["basic_info"]["convex_solver"] = "BPMPD";
    root["init_info"]["type"] = "stationary";
  }
};
/** null: refused */
std::unique_ptr<ProblemConstructionInfo> read(const std::shared_ptr<Scene>& s, const Json::Value& root)
{
  auto p = std::make_unique<ProblemConstructionInfo>(s);
  try
  {
    p->fromJson(root);
  }
  catch (const std::exception&)
  {
    return nullptr;
  }
  return p;
}
}  // namespace

SYM_HARNESS(json_sections)
{
  sym::bound("2 joints, 5 steps; every section with its fields present or absent, any numbers in them; each kind of wrong section");
  World w;
  auto scene = std::make_shared<Scene>(w, 2);
  Doc d;
  Json::Value& b = d.root["basic_info"];
  Json::Value& in = d.root["init_info"];
  bool valid = true;
  const int part = sym::choose("part", 4);
  double lo = 1, hi = 1, dt = 1;
  bool time = false;
  IntVec steps, dofs;
  std::vector<DblVec> data;
  DblVec end;
  int init = 0;
  std::map<std::string, double> opt;
  if (part == 0)
  {
    if (sym::flag("limits"))
    {
      lo = sym::real_in("lo", -2, 2);
      hi = sym::real_in("hi", -2, 2);
      b["dt_lower_lim"] = lo;
      b["dt_upper_lim"] = hi;
      valid = lo > 0 && !(hi < lo);
    }
    time = sym::flag("time");
    if (time)
      b["use_time"] = true;
    if (sym::flag("fixed"))
    {
      steps = { 0, 3 };
      dofs = { 1 };
      for (int i : steps)
        b["fixed_timesteps"].append(i);
      for (int i : dofs)
        b["fixed_dofs"].append(i);
    }
  }
  else if (part == 1)
  {
    const int wrong = sym::choose("wrong", 6);
    if (wrong == 0)
      d.root.removeMember("basic_info");
    else if (wrong == 1)
      d.root.removeMember("init_info");
    else if (wrong == 2)
      d.root["basic_info"]["manip"] = "leg";
    else if (wrong == 3)
      d.root["basic_info"].removeMember("n_steps");
    else if (wrong == 4)
      d.root["init_info"]["type"] = "guess";
    else
    {
      d.root["costs"].append(Json::Value());
      d.root["costs"][0]["type"] = "unheard of";
      d.root["costs"][0]["params"] = Json::Value(Json::objectValue);
    }
    valid = false;
  }
  else if (part == 2)
  {
    init = sym::choose("init", 3);
    const int wrong = sym::choose("wrong", 3);
    if (sym::flag("dt"))
    {
      dt = sym::real_in("dt", 0.1, 5);
      in["dt"] = dt;
    }
    if (init == 1)
    {
      in["type"] = sym::flag("case") ? "Joint_Interpolated" : "joint_interpolated";
      if (wrong != 2)
        in["endpoint"] = list("end", wrong == 1 ? 3 : 2, end);
      valid = wrong == 0;
    }
    else if (init == 2)
    {
      in["type"] = "given_traj";
      if (wrong != 2)
        for (int i = 0; i < d.n - (wrong == 1 ? 1 : 0); ++i)
        {
          data.emplace_back();
          in["data"].append(list("row" + std::to_string(i) + "_", 2, data.back()));
        }
      valid = wrong == 0;
    }
  }
  else
  {
    const char* fields[11] = { "improve_ratio_threshold", "min_trust_box_size", "min_approx_improve", "min_approx_improve_frac", "trust_shrink_ratio", "trust_expand_ratio", "cnt_tolerance", "merit_coeff_increase_ratio", "max_time", "initial_merit_error_coeff", "trust_box_size" };
    Json::Value& o = d.root["opt_info"];
    const int only = sym::choose("field", 12);
    for (int i = 0; i < 11; ++i)
      if (only == 11 || only == i)
      {
        opt[fields[i]] = sym::real_in(fields[i], 0, 100);
        o[fields[i]] = opt[fields[i]];
      }
    if (only == 11)
    {
      o["max_iter"] = 17;
      o["max_merit_coeff_increases"] = 23;
      o["inflate_constraints_individually"] = false;
    }
  }
  auto p = read(scene, d.root);
  sym::check((p != nullptr) == valid, valid ? "refused though valid" : "accepted though invalid");
  if (p == nullptr || !valid)
  {
    sym::cover("refused");
    return;
  }
  sym::cover("read");
  const BasicInfo& i = p->basic_info;
  sym::check(i.n_steps == d.n && i.manip == "arm" && i.convex_solver == sco::ModelType::BPMPD && i.use_time == time, "basic");
  sym::check(i.fixed_timesteps == steps && i.fixed_dofs == dofs, "fixed");
  sym::check_eq(i.dt_lower_lim, lo, "lower time limit");
  sym::check_eq(i.dt_upper_lim, hi, "upper time limit");
  sym::check(p->cost_infos.empty() && p->cnt_infos.empty(), "no terms");
  sym::check_eq(p->init_info.dt, dt, "initial time");
  sym::check(p->kin != nullptr && p->kin->numJoints() == 2, "manipulator");
  sym::check(p->init_info.type == (init == 0 ? InitInfo::STATIONARY : init == 1 ? InitInfo::JOINT_INTERPOLATED : InitInfo::GIVEN_TRAJ), "kind of initial trajectory");
  const TrajArray& t = p->init_info.data;
  if (init == 1)
  {
    sym::check(t.size() == 2, "end point");
    for (int k = 0; k < 2 && t.size() == 2; ++k)
      sym::check_eq(t.data()[k], end[static_cast<std::size_t>(k)], "end point");
  }
  if (init == 2)
  {
    sym::check(t.rows() == d.n && t.cols() == 2, "trajectory");
    for (int r = 0; r < d.n && t.rows() == d.n; ++r)
      for (int k = 0; k < 2; ++k)
        sym::check_eq(t(r, k), data[static_cast<std::size_t>(r)][static_cast<std::size_t>(k)], "trajectory");
  }
  const sco::BasicTrustRegionSQPParameters def;
  const auto& o = p->opt_info;
  auto param = [&](const char* n, double got, double unset) { sym::check_eq(got, opt.count(n) != 0 ? opt[n] : unset, n); };
  param("improve_ratio_threshold", o.improve_ratio_threshold, def.improve_ratio_threshold);
  param("min_trust_box_size", o.min_trust_box_size, def.min_trust_box_size);
  param("min_approx_improve", o.min_approx_improve, def.min_approx_improve);
  param("min_approx_improve_frac", o.min_approx_improve_frac, def.min_approx_improve_frac);
  param("trust_shrink_ratio", o.trust_shrink_ratio, def.trust_shrink_ratio);
  param("trust_expand_ratio", o.trust_expand_ratio, def.trust_expand_ratio);
  param("cnt_tolerance", o.cnt_tolerance, def.cnt_tolerance);
  param("merit_coeff_increase_ratio", o.merit_coeff_increase_ratio, def.merit_coeff_increase_ratio);
  param("max_time", o.max_time, def.max_time);
  param("initial_merit_error_coeff", o.initial_merit_error_coeff, def.initial_merit_error_coeff);
  param("trust_box_size", o.trust_box_size, def.trust_box_size);
  const bool all = opt.size() == 11;
  sym::check(o.max_iter == (all ? 17 : def.max_iter) && o.max_merit_coeff_increases == (all ? 23 : def.max_merit_coeff_increases) &&
                 o.inflate_constraints_individually == (all ? false : def.inflate_constraints_individually),
             "options");
  sym::require_cover("read");
  sym::require_cover("refused");
}

SYM_HARNESS(json_terms)
{
  sym::bound("2 joints, 5 steps; every kind of term, as cost and as constraint, with all, none or all but one of its optional fields, any numbers; missing and unknown fields, wrong links, steps and fixed steps");
  World w;
  auto scene = std::make_shared<Scene>(w, 2);
  Doc d;
  const bool is_cost = sym::flag("cost");
  Json::Value& t = d.root[is_cost ? "costs" : "constraints"][0];
  const char* kinds[9] = { "joint_pos", "joint_vel", "joint_acc", "joint_jerk", "total_time", "cart_vel", "cart_pose", "dynamic_cart_pose", "collision" };
  const int kind = sym::choose("kind", 9);
  t["type"] = kinds[kind];
  Json::Value& p = t["params"];
  p = Json::Value(Json::objectValue);
  const bool named = sym::flag("named");
  if (named)
    t["name"] = "my term";
  const bool time = kind == 1 && sym::flag("time");
  if (time)
    t["use_time"] = true;
  bool valid = true;
  const int fault = sym::choose("fault", 3);  // none, unknown field, no parameters
  const bool full = sym::flag("full");
  DblVec coeffs, targets, upper, lower, xyz, wxyz{ 1, 0, 0, 0 }, pos{ 1, 1, 1 }, rot{ 1, 1, 1 };
  int first = 0, last = d.n - 1;
  double a = 0, c = 0, e = 0, lvs = 0.5, buffer = 0.5;
  int which = 1, test = 2, bad = 0, turned = 0;
  IntVec fixed;
  std::map<std::pair<std::string, std::string>, std::pair<double, double>> pairs;
  if (kind < 4)
  {
    p["targets"] = list("target", 2, targets);
    coeffs = { 1, 1 };
    upper = lower = { 0, 0 };
    if (full)
    {
      coeffs.clear();
      upper.clear();
      lower.clear();
      p["coeffs"] = list("coeff", 2, coeffs);
      p["upper_tols"] = list("upper", 2, upper);
      p["lower_tols"] = list("lower", 2, lower);
      first = sym::choose("first", d.n);
      last = sym::choose("last", d.n);
      p["first_step"] = first;
      p["last_step"] = last;
    }
    bad = sym::choose("bad", 2);
    if (bad == 1)
      p.removeMember("targets");
    valid = valid && bad == 0;
  }
  else if (kind == 4)
  {
    a = c = 1;
    if (full)
    {
      p["coeff"] = a = sym::real_in("coeff", 0, 10);
      p["limit"] = c = sym::real_in("limit", 0, 10);
    }
  }
  else if (kind == 5)
  {
    first = sym::choose("first", d.n + 2) - 1;
    last = sym::choose("last", d.n + 2) - 1;
    p["first_step"] = first;
    p["last_step"] = last;
    p["max_displacement"] = a = sym::real_in("displacement", 0, 10);
    p["link"] = full ? "m" : "s";
    valid = valid && full && first >= 0 && last <= d.n - 1 && first < last;
  }
  else if (kind < 8)
  {
    const std::string source = sym::flag("source moves") ? "m" : "s", target = sym::flag("target moves") ? "n" : "b";
    p["source_frame"] = source;
    p["target_frame"] = target;
    const bool sm = source == "m", tm = target == "n";
    valid = valid && (kind == 7 ? sm && tm : sm != tm);
    bad = sym::choose("bad", 3);
    if (bad == 1)
      p["source_frame"] = "nowhere";
    if (bad == 2)
      p.removeMember("target_frame");
    valid = valid && bad == 0;
    xyz = { 0, 0, 0, 0, 0, 0 };
    if (full)
    {
      xyz.clear();
      pos.clear();
      rot.clear();
      p["pos_coeffs"] = list("pos", 3, pos);
      p["rot_coeffs"] = list("rot", 3, rot);
      p["source_frame_offset_xyz"] = list("sx", 3, xyz);
      p["target_frame_offset_xyz"] = list("tx", 3, xyz);
      wxyz.clear();
      turned = sym::choose("turned", 2);
      p[turned == 0 ? "source_frame_offset_wxyz" : "target_frame_offset_wxyz"] = list("wxyz", 4, wxyz);
      p["timestep"] = last = sym::choose("step", d.n);
    }
  }
  else
  {
    p["coeffs"] = c = sym::real_in("coeff", 0, 10);
    p["dist_pen"] = a = sym::real_in("margin", 0, 10);
    if (full)
    {
      which = sym::choose("evaluator", 6);
      first = which == 3 ? sym::choose("first", d.n + 1) - 1 : 1;
      last = which == 3 ? sym::choose("last", d.n + 1) : 3;
      p["evaluator_type"] = which;
      p["first_step"] = first;
      p["last_step"] = last;
      p["longest_valid_segment_length"] = lvs = sym::real_in("segment", -1, 5);
      p["safety_margin_buffer"] = buffer = sym::real_in("buffer", -1, 5);
      test = which == 2 ? sym::choose("test", 4) : 1;
      p["contact_test_type"] = test;
      fixed = { 1 };
      p["fixed_steps"].append(1);
      for (int k = 0; k < 2; ++k)
      {
        Json::Value v;
        v["link"] = k == 0 ? "m" : "s";
        v["pair"].append(k == 0 ? "x" : "n");
        if (k == 0)
          v["pair"].append("y");
        const double pc = sym::real_in("pair coeff" + std::to_string(k), 0, 10), pm = sym::real_in("pair margin" + std::to_string(k), 0, 10);
        v["coeffs"] = pc;
        v["dist_pen"] = pm;
        p["pairs"].append(v);
        if (k == 0)
          pairs[{ "m", "x" }] = pairs[{ "m", "y" }] = { pc, pm };
        else
          pairs[{ "n", "s" }] = { pc, pm };
      }
      valid = valid && which <= 4 && first >= 0 && last >= first && last < d.n && test < 3 && 1 >= first && 1 <= last && !(lvs < 0) && !(buffer < 0);
    }
  }
  if (fault == 1)
    p["unheard of"] = 1;
  if (fault == 2)
    t.removeMember("params");
  valid = valid && fault == 0;
  auto r = read(scene, d.root);
  sym::check((r != nullptr) == valid, valid ? "refused though valid" : "accepted though invalid");
  if (r == nullptr || !valid)
  {
    sym::cover("refused");
    return;
  }
  const auto& terms = is_cost ? r->cost_infos : r->cnt_infos;
  sym::check(terms.size() == 1 && (is_cost ? r->cnt_infos : r->cost_infos).empty(), "one term");
  if (terms.size() != 1)
    return;
  const TermInfo& got = *terms[0];
  sym::check(got.name == (named ? "my term" : kinds[kind]), "name");
  TermType ty = is_cost ? TermType::TT_COST : TermType::TT_CNT;
  if (time)
    ty = ty | TermType::TT_USE_TIME;
  sym::check(got.term_type == ty && r->basic_info.use_time == time, "kind of term");
  sym::cover(kinds[kind]);
  auto joint = [&](const auto* g) {
    sym::check(g != nullptr, "type");
    if (g == nullptr)
      return;
    same(g->coeffs, coeffs, "coefficients");
    same(g->targets, targets, "targets");
    same(g->upper_tols, upper, "upper tolerances");
    same(g->lower_tols, lower, "lower tolerances");
    sym::check(g->first_step == first && g->last_step == last, "steps");
  };
  auto pose = [&](const auto* g) {
    sym::check(g != nullptr, "type");
    if (g == nullptr)
      return;
    sym::check(g->timestep == last && g->source_frame == p["source_frame"].asString() && g->target_frame == p["target_frame"].asString(), "frames");
    same_v(g->pos_coeffs, pos, "position coefficients");
    same_v(g->rot_coeffs, rot, "rotation coefficients");
    const Eigen::Matrix3d R = Eigen::Quaterniond(wxyz[0], wxyz[1], wxyz[2], wxyz[3]).matrix();
    for (int i = 0; i < 3; ++i)
    {
      sym::check_eq(g->source_frame_offset.translation()(i), xyz[static_cast<std::size_t>(i)], "source offset");
      sym::check_eq(g->target_frame_offset.translation()(i), xyz[static_cast<std::size_t>(3 + i)], "target offset");
      for (int k = 0; k < 3; ++k)
      {
        sym::check_eq(g->source_frame_offset.linear()(i, k), turned == 0 ? R(i, k) : (i == k ? 1 : 0), "source rotation");
        sym::check_eq(g->target_frame_offset.linear()(i, k), turned == 1 ? R(i, k) : (i == k ? 1 : 0), "target rotation");
      }
    }
  };
  if (kind == 0)
    joint(dynamic_cast<const JointPosTermInfo*>(&got));
  else if (kind == 1)
    joint(dynamic_cast<const JointVelTermInfo*>(&got));
  else if (kind == 2)
    joint(dynamic_cast<const JointAccTermInfo*>(&got));
  else if (kind == 3)
    joint(dynamic_cast<const JointJerkTermInfo*>(&got));
  else if (kind == 4)
  {
    const auto* g = dynamic_cast<const TotalTimeTermInfo*>(&got);
    sym::check(g != nullptr, "type");
    if (g == nullptr)
      return;
    sym::check_eq(g->coeff, a, "coefficient");
    sym::check_eq(g->limit, c, "limit");
  }
  else if (kind == 5)
  {
    const auto* g = dynamic_cast<const CartVelTermInfo*>(&got);
    sym::check(g != nullptr, "type");
    if (g == nullptr)
      return;
    sym::check(g->first_step == first && g->last_step == last && g->link == "m", "steps and link");
    sym::check_eq(g->max_displacement, a, "displacement");
  }
  else if (kind == 6)
    pose(dynamic_cast<const CartPoseTermInfo*>(&got));
  else if (kind == 7)
    pose(dynamic_cast<const DynamicCartPoseTermInfo*>(&got));
  else
  {
    const auto* g = dynamic_cast<const CollisionTermInfo*>(&got);
    sym::check(g != nullptr, "type");
    if (g == nullptr)
      return;
    sym::check(g->first_step == first && g->last_step == last && g->fixed_steps == fixed, "steps");
    const auto& k = g->config;
    sym::check(static_cast<int>(k.collision_check_config.type) == which && static_cast<int>(k.collision_check_config.contact_request.type) == test, "evaluator");
    sym::check_eq(k.collision_check_config.longest_valid_segment_length, lvs, "longest segment");
    sym::check_eq(k.collision_margin_buffer, buffer, "buffer");
    sym::check_eq(k.contact_manager_config.margin, a, "margin");
    sym::check(k.contact_manager_config.pair_margin_data.pairs.size() == pairs.size(), "pairs");
    sym::check(pairs.empty() || k.contact_manager_config.pair_margin_override_type == tesseract::collision::CollisionMarginPairOverrideType::MODIFY, "margins of pairs are applied");
    for (const auto& q : pairs)
    {
      sym::check_eq(k.collision_coeff_data.getCollisionCoeff(q.first.first, q.first.second), q.second.first, "coefficient of a pair");
      const auto it = k.contact_manager_config.pair_margin_data.pairs.find(q.first);
      sym::check(it != k.contact_manager_config.pair_margin_data.pairs.end(), "pair");
      if (it != k.contact_manager_config.pair_margin_data.pairs.end())
        sym::check_eq(it->second, q.second.second, "margin of a pair");
    }
    sym::check_eq(k.collision_coeff_data.getCollisionCoeff("m", "n"), c, "coefficient");
  }
  for (const char* k : kinds)
    sym::require_cover(k);
  sym::require_cover("refused");
}

SYM_HARNESS(results)
{
  sym::bound("1..2 joints, 2..3 steps, with and without time; any solution, cost values and violations; solver failing at once");
  const int n = 2 + sym::choose("steps", 2), dof = 1 + sym::choose("dof", 2);
  Plan p(n, dof);
  const bool time = sym::flag("time");
  if (time)
    p.add(term<TotalTimeTermInfo>("c time"), true, true);
  for (int k = 0; k < 2; ++k)
  {
    auto t = term<JointPosTermInfo>(k == 0 ? "a" : "b");
    t->targets = { 1 };
    p.add(t, k == 0);
  }
  if (sym::flag("inequality"))
  {
    auto t = term<JointPosTermInfo>("d");
    t->targets = { 1 };
    t->upper_tols = { 1 };
    t->lower_tols = { -1 };
    p.add(t, false);
  }
  const TrajOptProb::Ptr prob = p.build();
  const int cols = dof + (time ? 1 : 0);
  sco::OptResults o;
  o.clear();
  for (int i = 0; i < n * cols; ++i)
    o.x.push_back(sym::real("x" + std::to_string(i)));
  o.status = static_cast<sco::OptStatus>(sym::choose("status", 5));
  o.cost_vals = { sym::real("cost") };
  o.cnt_viols = { sym::real("violation") };
  const TrajOptResult r(o, *prob);
  sym::check(r.status == o.status, "status");
  same(r.cost_vals, o.cost_vals, "costs");
  same(r.cnt_viols, o.cnt_viols, "violations");
  std::vector<std::string> cn, vn;
  for (const auto& c : prob->getCosts())
    cn.push_back(c->name());
  for (const auto& c : prob->getConstraints())
    vn.push_back(c->name());
  sym::check(r.cost_names == cn && r.cnt_names == vn && cn.size() == (time ? 2 : 1), "names");
  sym::check(r.traj.rows() == n && r.traj.cols() == cols, "trajectory");
  for (int i = 0; i < n && r.traj.rows() == n && r.traj.cols() == cols; ++i)
    for (int j = 0; j < cols; ++j)
      sym::check_eq(r.traj(i, j), o.x[static_cast<std::size_t>(i * cols + j)], "trajectory");
  g_model->solver = [] { return sco::CVX_FAILED; };
  const auto opt = OptimizeProblem(prob);
  sym::check(opt->status != sco::OPT_CONVERGED, "converged though nothing was solved");
  sym::check(opt->traj.rows() == n && opt->traj.cols() == cols, "trajectory of a failed run");
  const TrajArray init = prob->GetInitTraj();
  for (int i = 0; i < n && opt->traj.rows() == n && opt->traj.cols() == cols; ++i)
    for (int j = 0; j < cols; ++j)
      sym::check_eq(opt->traj(i, j), init(i, j), "trajectory of a failed run");
}

namespace
{
/** a term of somebody else's, known to the reader once registered */
struct OwnTerm : public TermInfo
{
  double value = 0;
  bool read = false;
  OwnTerm() : TermInfo(TermType::TT_COST | TermType::TT_CNT) {}
  void fromJson(ProblemConstructionInfo&, const Json::Value& v) override
  {
    read = true;
    value = v["params"]["value"].asDouble();
  }
  void hatch(TrajOptProb&) override {}
  static TermInfo::Ptr create() { return std::make_shared<OwnTerm>(); }
};
}  // namespace

SYM_HARNESS(json_several)
{
  sym::bound("2 joints, 5 steps; up to 3 costs and 2 constraints, each of 3 kinds of term (one registered by the user) or of an unknown kind, any numbers; read, and built into a problem");
  World w;
  auto scene = std::make_shared<Scene>(w, 2);
  scene->joints = { { "j0", 3 }, { "j1", 5 }, { "j2", 7 }, { "other", 11 } };
  Doc d;
  if (sym::flag("registered first"))
    TermInfo::RegisterMaker("own", &OwnTerm::create);
  else
  {
    TermInfo::fromName("joint_pos");
    TermInfo::RegisterMaker("own", &OwnTerm::create);
  }
  const char* kinds[4] = { "joint_pos", "joint_vel", "own", "nonsense" };
  bool valid = true;
  struct One
  {
    int kind;
    double number;
  };
  std::vector<One> want[2];
  for (int c = 0; c < 2; ++c)
  {
    const char* section = c == 0 ? "costs" : "constraints";
    for (int i = 0, n = sym::choose(section, c == 0 ? 4 : 3); i < n; ++i)
    {
      Json::Value t;
      const std::string id = std::string(section) + std::to_string(i);
      One o{ sym::choose(id, c == 0 && n == 3 ? 3 : 4), sym::real_in(id + " number", -5, 5) };
      t["type"] = kinds[o.kind];
      t["name"] = id;
      if (o.kind < 2)
      {
        t["params"]["targets"].append(o.number);
        t["params"]["targets"].append(0.0);
      }
      else
        t["params"]["value"] = o.number;
      valid = valid && o.kind < 3;
      want[c].push_back(o);
      d.root[section].append(t);
    }
  }
  auto r = read(scene, d.root);
  sym::check((r != nullptr) == valid, valid ? "refused though valid" : "accepted though invalid");
  if (r == nullptr || !valid)
  {
    sym::cover("refused");
    return;
  }
  for (int c = 0; c < 2; ++c)
  {
    const auto& terms = c == 0 ? r->cost_infos : r->cnt_infos;
    sym::check(terms.size() == want[c].size(), "every term once");
    if (terms.size() != want[c].size())
      return;
    for (std::size_t i = 0; i < terms.size(); ++i)
    {
      const One& o = want[c][i];
      sym::check(terms[i]->name == std::string(c == 0 ? "costs" : "constraints") + std::to_string(i), "order of the terms");
      sym::check(terms[i]->term_type == (c == 0 ? TermType::TT_COST : TermType::TT_CNT), "kind of term");
      const auto* pos = dynamic_cast<const JointPosTermInfo*>(terms[i].get());
      const auto* vel = dynamic_cast<const JointVelTermInfo*>(terms[i].get());
      const auto* own = dynamic_cast<const OwnTerm*>(terms[i].get());
      sym::check(o.kind == 0 ? pos != nullptr : (o.kind == 1 ? vel != nullptr : own != nullptr), "type of the term");
      if (pos != nullptr)
        sym::check_eq(pos->targets[0], o.number, "parameters");
      if (vel != nullptr)
        sym::check_eq(vel->targets[0], o.number, "parameters");
      if (own != nullptr)
      {
        sym::check(own->read, "parameters");
        sym::check_eq(own->value, o.number, "parameters");
      }
      sym::cover(kinds[o.kind]);
    }
  }
  // the description goes the same way when the problem is built at once
  const TrajOptProb::Ptr prob = ConstructProblem(d.root, scene), same = ConstructProblem(*r);
  sym::check(prob->GetNumSteps() == d.n && prob->GetNumDOF() == 2, "dimensions");
  sym::check(prob->getCosts().size() == same->getCosts().size() && prob->getConstraints().size() == same->getConstraints().size(), "terms of the problem");
  sym::require_cover("joint_pos");
  sym::require_cover("joint_vel");
  sym::require_cover("own");
  sym::require_cover("refused");
}

SYM_HARNESS(user_defined_from_json)
{
  sym::bound("a user defined term, whose function no description can hold");
  World w;
  auto scene = std::make_shared<Scene>(w, 2);
  ProblemConstructionInfo p(scene);
  UserDefinedTermInfo t;
  bool refused = false;
  try
  {
    t.fromJson(p, Json::Value());
  }
  catch (const std::exception&)
  {
    refused = true;
  }
  sym::check(refused, "accepted though invalid");
}
