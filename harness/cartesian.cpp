// Cartesian pose, Cartesian line and inverse kinematics constraints of trajopt_ifopt.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
// @unit trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
// @unit trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp
// @unit trajopt_common/src/utils.cpp
#include "nodes.h"
#include "kinematics.h"
#include <tesseract/kinematics/kinematic_group.h>
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
#include <stdexcept>
using namespace trajopt_ifopt;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace
{
constexpr double EPS = 1e-5;
struct Arm : hu::Chain
{
  using hu::Chain::Chain;
  using hu::Chain::calcJacobian;
  MatrixXd spin;  // 3 x dof, angular velocities of the moving link (analytic mode, where the pose itself does not rotate)
  // the velocity of a point fixed to the link, and the angular velocity
  MatrixXd calcJacobian(const Q& q, const std::string& l, const V3& p) const override
  {
    MatrixXd J(6, dof);
    const Link& k = links.at(l);
    const Vector3d arm = pose(l, q).linear() * p;
    for (int j = 0; j < dof; ++j)
    {
      const Vector3d w = spin.col(j);
      J.col(j).head(3) = k.dp[static_cast<std::size_t>(j)] + w.cross(arm);
      J.col(j).tail(3) = w;
    }
    return J;
  }
};
std::shared_ptr<const tesseract::kinematics::JointGroup> borrow(const tesseract::kinematics::JointGroup& t)
{
  return { &t, [](const tesseract::kinematics::JointGroup*) {} };
}
template <class F>
bool refuses(F make)
{
  try
  {
    make();
  }
  catch (const std::runtime_error&)
  {
    return true;
  }
  return false;
}
VectorXd qpart(const hu::Traj& t, int step, int dof, const VectorXd& x) { return x.segment(t.col[static_cast<std::size_t>(step)], dof); }

struct Pose
{
  Arm arm;
  hu::Traj t;
  int dof;
  hu::Iso so, to;
  bool in_target{ true };  // error of the source in the target frame, or the other way round
  Pose(int dof, bool sm, bool tm, bool spins) : arm(dof), dof(dof)
  {
    const int r = sym::choose("orientation", 2);
    sm ? (void)arm.moving("src", 2 * r, spins) : (void)arm.fixed("src", 2 * r);
    tm ? (void)arm.moving("tgt", r, spins) : (void)arm.fixed("tgt", r);
    so = hu::iso(hu::turn(r ? 3 : 1), hu::point("so"));
    to = hu::iso(hu::turn(r ? 1 : 2), hu::point("to"));
    const int layout = sym::choose("layout", 3);
    const VectorXd x = hu::vec_in("x", 2 * (dof + (layout ? 1 : 0)), -4, 4);
    t = hu::traj("x", 2, dof, layout, &x);
    in_target = sm;
  }
  VectorXd error(const VectorXd& q) const
  {
    const hu::Iso s = arm.pose("src", q) * so, g = arm.pose("tgt", q) * to;
    return in_target ? tesseract::common::calcTransformError(g, s) : tesseract::common::calcTransformError(s, g);
  }
};
/** the Jacobian is zero outside the joints of the variable, and inside it is the difference quotient of `error` */
template <class E>
void quotient(const ConstraintSet& c, const hu::Traj& t, int step, int dof, E error, const std::vector<int>& rows, const char* label)
{
  const MatrixXd J = c.getJacobian().toDense();
  sym::check(J.rows() == static_cast<Eigen::Index>(rows.size()) && J.cols() == t.n, "jacobian-size");
  const VectorXd q = qpart(t, step, dof, t.x);
  const VectorXd e = error(q);
  const Eigen::Index c0 = t.col[static_cast<std::size_t>(step)];
  for (Eigen::Index k = 0; k < t.n; ++k)
  {
    const Eigen::Index j = k - c0;
    if (j < 0 || j >= dof)
    {
      for (Eigen::Index i = 0; i < J.rows(); ++i)
        sym::check_eq(J(i, k), 0, "jacobian-elsewhere");
      continue;
    }
    VectorXd p = q;
    p(j) += EPS;
    const VectorXd ep = error(p);
    for (std::size_t i = 0; i < rows.size(); ++i)
      sym::check_near(J(static_cast<Eigen::Index>(i), k) * EPS, ep(rows[i]) - e(rows[i]), 1e-9, label);
  }
}
}  // namespace

SYM_HARNESS(pose)
{
  sym::bound("1..2 joints, 2 nodes, source, target or both moving (poses affine in the joints), 2 sets of frame orientations, 4 sets of coefficients");
  const int mode = sym::choose("moving", 3);
  const int dof = mode == 2 ? 1 : 1 + sym::choose("dof", 2);
  Pose p(dof, mode != 1, mode != 0, dof == 1);
  const int step = sym::choose("node", 2);
  const int pick = sym::choose("coefficients", 3);
  const bool split = sym::flag("split");
  const int shift = sym::choose("bounds", 3);
  // which components count, and their bounds
  VectorXd w(6);
  std::vector<Bounds> b;
  std::vector<int> rows;
  std::vector<double> weight;
  std::vector<Bounds> want;
  for (int i = 0; i < 6; ++i)
  {
    const bool on = pick == 0 || (pick == 1 ? i >= 3 : i == 1);
    w(i) = on ? sym::real_in("w" + std::to_string(i), 0.1, 10) : 0.0;
    if (on && pick == 2 && sym::flag("negative-weight"))
      w(i) = -w(i);
    const int kind = (i + shift) % 3;
    const double lo = sym::real_in("lo" + std::to_string(i), -2, -1), up = sym::real_in("up" + std::to_string(i), 1, 2);
    b.push_back(kind == 0 ? BoundZero : (kind == 1 ? Bounds(lo, up) : Bounds(lo, hu::INF)));
    if (!on)
      continue;
    if (kind == 1 && split)
    {
      rows.insert(rows.end(), { i, i });
      weight.insert(weight.end(), { w(i), w(i) });
      want.push_back(Bounds(lo, hu::INF));
      want.push_back(Bounds(-hu::INF, up));
    }
    else
    {
      rows.push_back(i);
      weight.push_back(w(i));
      want.push_back(b.back());
    }
  }
  auto c = std::make_shared<CartPosConstraint>(p.t.pos[static_cast<std::size_t>(step)], w, b, borrow(p.arm), "src", "tgt", p.so, p.to, "pose",
                                               split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
  c->linkWithVariables(p.t.vars);
  sym::check(c->update() == static_cast<int>(rows.size()) && c->getRows() == static_cast<int>(rows.size()), "pose-rows");
  auto values = [&](const char* label) {
    const VectorXd q = qpart(p.t, step, dof, p.t.x), e = p.error(q), v = c->getValues(), v2 = c->calcValues(q);
    sym::check(v.size() == static_cast<Eigen::Index>(rows.size()), "pose-rows");
    for (std::size_t i = 0; i < rows.size(); ++i)
    {
      sym::check_eq(v(static_cast<Eigen::Index>(i)), e(rows[i]), label);
      sym::check_eq(v2(static_cast<Eigen::Index>(i)), e(rows[i]), label);
    }
  };
  values("pose-value");
  const VectorXd k = c->getCoefficients();
  const auto bounds = c->getBounds();
  sym::check(k.size() == static_cast<Eigen::Index>(rows.size()) && bounds.size() == rows.size(), "pose-rows");
  for (std::size_t i = 0; i < rows.size(); ++i)
  {
    sym::check_eq(k(static_cast<Eigen::Index>(i)), weight[i], "pose-coefficient");
    sym::check_eq(bounds[i].getLower(), want[i].getLower(), "pose-bound");
    sym::check_eq(bounds[i].getUpper(), want[i].getUpper(), "pose-bound");
  }
  quotient(*c, p.t, step, dof, [&](const VectorXd& q) { return p.error(q); }, rows, "pose-jacobian");
  // a new target: everything follows
  if (pick == 2)
  {
    p.to = hu::iso(hu::turn(3), hu::point("to2"));
    c->setTargetPose(p.to);
    values("pose-value-retargeted");
    quotient(*c, p.t, step, dof, [&](const VectorXd& q) { return p.error(q); }, rows, "pose-jacobian-retargeted");
    const hu::Iso now = c->getCurrentPose(), want_now = p.arm.pose("src", qpart(p.t, step, dof, p.t.x)) * p.so;
    for (int r = 0; r < 3; ++r)
      sym::check_eq(now.translation()(r), want_now.translation()(r), "pose-current");
  }
}

SYM_HARNESS(pose_analytic)
{
  sym::bound("analytic mode: 1..2 joints, one frame moving, angular velocities from 4 concrete vectors, translations arbitrary");
  const bool tm = sym::flag("target-moves");
  const int dof = 1 + sym::choose("dof", 2);
  Pose p(dof, !tm, tm, false);
  const double spins[4][3] = { { 0, 0, 0 }, { 0, 0, 2 }, { 1, -2, 3 }, { -0.5, 1, 0.25 } };
  p.arm.spin.resize(3, dof);
  for (int j = 0; j < dof; ++j)
    p.arm.spin.col(j) = Eigen::Map<const Vector3d>(spins[sym::choose("spin" + std::to_string(j), 4)]);
  auto c = std::make_shared<CartPosConstraint>(p.t.pos[1], borrow(p.arm), "src", "tgt", p.so, p.to);
  c->use_numeric_differentiation = false;
  c->linkWithVariables(p.t.vars);
  const MatrixXd J = c->getJacobian().toDense();
  sym::check(J.rows() == 6 && J.cols() == p.t.n, "jacobian-size");
  const VectorXd q = qpart(p.t, 1, dof, p.t.x);
  const std::string mv = tm ? "tgt" : "src", st = tm ? "src" : "tgt";
  const hu::Iso moving = p.arm.pose(mv, q) * (tm ? p.to : p.so), still = p.arm.pose(st, q) * (tm ? p.so : p.to);
  const MatrixXd world = p.arm.calcJacobian(q, mv, (tm ? p.to : p.so).translation());
  for (int j = 0; j < dof; ++j)
  {
    const Vector3d v = world.col(j).head(3), w = world.col(j).tail(3);
    Eigen::Matrix3d W;
    W << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    const Eigen::Matrix3d D = still.linear().transpose() * W * moving.linear();
    const Vector3d dv = still.linear().transpose() * v;
    const double dw[3] = { 0.5 * (D(2, 1) - D(1, 2)), 0.5 * (D(0, 2) - D(2, 0)), 0.5 * (D(1, 0) - D(0, 1)) };
    for (int i = 0; i < 3; ++i)
    {
      sym::check_eq(J(i, p.t.col[1] + j), dv(i), "pose-analytic-position");
      sym::check_near(J(3 + i, p.t.col[1] + j), dw[i], 1e-3, "pose-analytic-rotation");
    }
  }
}

SYM_HARNESS(refusals)
{
  sym::bound("every combination of present/absent, static/moving frames; 5..7 bounds and coefficients; 0..7 line rows");
  Arm arm(1);
  const int s = sym::choose("source", 3), g = sym::choose("target", 3);  // absent, static, moving
  if (s)
    s == 2 ? (void)arm.moving("src", 0, false) : (void)arm.fixed("src", 0);
  if (g)
    g == 2 ? (void)arm.moving("tgt", 0, false) : (void)arm.fixed("tgt", 0);
  hu::Traj t = hu::traj("x", 1, 1, 0);
  const int nb = 5 + sym::choose("bounds", 3), nw = 5 + sym::choose("weights", 3);
  const bool bad = s == 0 || g == 0 || (s == 1 && g == 1) || nb != 6 || nw != 6;
  sym::check(refuses([&] {
               CartPosConstraint c(t.pos[0], VectorXd::Ones(nw), std::vector<Bounds>(static_cast<std::size_t>(nb), BoundZero), borrow(arm), "src", "tgt");
             }) == bad,
             "pose-refused");
  const int n = sym::choose("rows", 8);
  const bool same = sym::flag("same-ends");
  hu::Iso a = hu::Iso::Identity(), b = a;
  if (!same)
    b.translation()(1) = 1;
  auto info = [&] { return CartLineInfo(borrow(arm), "src", "tgt", a, b, hu::Iso::Identity(), Eigen::VectorXi::Zero(n)); };
  const bool bad_info = s == 0 || g == 0 || same || n == 0 || n > 6;
  sym::check(refuses([&] { info(); }) == bad_info, "line-refused");
  if (!bad_info)
    sym::check(refuses([&] { CartLineConstraint c(info(), t.pos[0], VectorXd::Ones(nw)); }) == (nw != n), "line-refused");
}

namespace
{
struct Line
{
  Arm arm;
  hu::Traj t;
  hu::Iso so, a, b;
  Vector3d d;  // b - a in the target frame
  int dof;
  Line(int dof, bool tm, bool spins) : arm(dof), dof(dof)
  {
    const int r = sym::choose("orientation", 2);
    arm.sliding("src", 2 * r, spins, 0);
    tm ? (void)arm.sliding("tgt", r ? 3 : 0, false, 1) : (void)arm.fixed("tgt", r ? 3 : 0);
    so = hu::iso(hu::turn(r ? 3 : 1), spins ? Vector3d(0.5, -1, 2) : hu::point("so"));
    const double ends[4][3] = { { 1, 0, 0 }, { -2, 0, 0 }, { 0, 0.25, 0 }, { -3, 4, 12 } };
    const int k = sym::choose("line", 4);
    d = Vector3d(ends[k][0], ends[k][1], ends[k][2]);
    a = hu::iso(hu::turn(r ? 1 : 0), hu::point("a"));
    b = hu::iso(a.linear(), a.translation() + d);
    const VectorXd x = hu::vec_in("x", dof + 1, -4, 4);
    t = hu::traj("x", 1, dof, 1, &x);
  }
  /** nearest point of the segment, orientation of the ends */
  hu::Iso nearest(const hu::Iso& s, const hu::Iso& A, const hu::Iso& B) const
  {
    const Vector3d l = B.translation() - A.translation();
    const double len2 = d.squaredNorm();
    double u = 0;
    for (int i = 0; i < 3; ++i)
      u += (s.translation()(i) - A.translation()(i)) * l(i);
    u /= len2;
    u = u < 0 ? 0.0 : (u > 1 ? 1.0 : u);
    return hu::iso(A.linear(), A.translation() + u * l);
  }
  VectorXd error(const VectorXd& q) const
  {
    const hu::Iso s = arm.pose("src", q) * so, A = arm.pose("tgt", q) * a, B = arm.pose("tgt", q) * b;
    return tesseract::common::calcTransformError(nearest(s, A, B), s);
  }
};
Eigen::VectorXi rows_of(const std::vector<int>& r)
{
  Eigen::VectorXi v(static_cast<Eigen::Index>(r.size()));
  for (std::size_t i = 0; i < r.size(); ++i)
    v(static_cast<Eigen::Index>(i)) = r[i];
  return v;
}
void line(bool numeric)
{
  const bool tm = sym::flag("target-moves") && numeric;
  Line l(1, tm, numeric && !tm);
  const std::vector<std::vector<int>> sets = { { 0, 1, 2, 3, 4, 5 }, { 2, 0 }, { 4 } };
  const auto rows = sets[static_cast<std::size_t>(sym::choose("rows", 3))];
  const double spins[3][3] = { { 0, 0, 0 }, { 0, 0, 2 }, { 1, -2, 3 } };
  l.arm.spin = Eigen::Map<const Vector3d>(spins[numeric ? 0 : sym::choose("spin", 3)]);
  const VectorXd w = hu::vec_in("w", static_cast<Eigen::Index>(rows.size()), 0.1, 10);
  CartLineInfo info(borrow(l.arm), "src", "tgt", l.a, l.b, l.so, rows_of(rows));
  auto c = std::make_shared<CartLineConstraint>(info, l.t.pos[0], w);
  c->use_numeric_differentiation = numeric;
  c->linkWithVariables(l.t.vars);
  const VectorXd q = qpart(l.t, 0, 1, l.t.x);
  const VectorXd e = l.error(q), v = c->getValues(), k = c->getCoefficients();
  const auto b = c->getBounds();
  sym::check(c->getRows() == static_cast<int>(rows.size()) && v.size() == k.size() && k.size() == static_cast<Eigen::Index>(b.size()) &&
                 b.size() == rows.size(),
             "line-rows");
  for (std::size_t i = 0; i < rows.size(); ++i)
  {
    sym::check_near(v(static_cast<Eigen::Index>(i)), e(rows[i]), 1e-9, "line-value");
    sym::check_eq(k(static_cast<Eigen::Index>(i)), w(static_cast<Eigen::Index>(i)), "line-coefficient");
    sym::check_eq(b[i].getLower(), 0, "line-bound");
    sym::check_eq(b[i].getUpper(), 0, "line-bound");
  }
  if (numeric)
  {
    quotient(*c, l.t, 0, 1, [&](const VectorXd& p) { return l.error(p); }, rows, "line-jacobian");
    std::vector<Bounds> ranges;
    for (std::size_t i = 0; i < rows.size(); ++i)
      ranges.emplace_back(-1.0 - static_cast<double>(i), 2.0 + static_cast<double>(i));
    c->setBounds(ranges);
    const auto got = c->getBounds();
    sym::check(got.size() == rows.size(), "line-rows");
    for (std::size_t i = 0; i < got.size() && i < rows.size(); ++i)
      sym::check(got[i].getLower() == ranges[i].getLower() && got[i].getUpper() == ranges[i].getUpper(), "line-bound-set");
    return;
  }
  // analytic mode: the source frame moves with the Jacobian of its origin and turns with the spin
  const MatrixXd J = c->getJacobian().toDense();
  sym::check(J.rows() == static_cast<Eigen::Index>(rows.size()) && J.cols() == l.t.n, "jacobian-size");
  const hu::Iso s = l.arm.pose("src", q) * l.so, A = l.arm.pose("tgt", q) * l.a, B = l.arm.pose("tgt", q) * l.b;
  const MatrixXd world = l.arm.calcJacobian(q, "src", l.so.translation());
  const Vector3d ww = world.col(0).tail(3);
  Eigen::Matrix3d W;
  W << 0, -ww(2), ww(1), ww(2), 0, -ww(0), -ww(1), ww(0), 0;
  const hu::Iso s1 = hu::iso(s.linear() + EPS * W * s.linear(), s.translation() + EPS * world.col(0).head(3));
  const VectorXd e1 = tesseract::common::calcTransformError(l.nearest(s1, A, B), s1);
  for (std::size_t i = 0; i < rows.size(); ++i)
  {
    sym::check_eq(J(static_cast<Eigen::Index>(i), 0), 0, "jacobian-elsewhere");
    sym::check_near(J(static_cast<Eigen::Index>(i), 1) * EPS, e1(rows[i]) - e(rows[i]), 1e-8, "line-analytic-jacobian");
  }
}
}  // namespace

SYM_HARNESS(line)
{
  sym::bound("1 joint, 4 line directions and lengths, ends of equal orientation, source anywhere; the target frame may move");
  line(true);
}
SYM_HARNESS(line_analytic)
{
  sym::bound("analytic mode: target frame fixed, angular velocities from 3 concrete vectors");
  line(false);
}

SYM_HARNESS(line_turning)
{
  sym::bound("ends of different orientation (90 and 120 degrees apart): source nearest to one of the ends");
  hu::Iso s = hu::iso(hu::turn(sym::choose("source-orientation", 2)), hu::point("s"));
  Arm arm(1);
  arm.moving("src", 0, false);
  arm.fixed("tgt", 0);
  hu::Traj t = hu::traj("x", 1, 1, 0);
  const int k = 1 + sym::choose("turn", 2);
  hu::Iso a = hu::iso(hu::turn(0), hu::point("a")), b = hu::iso(hu::turn(k), a.translation() + Vector3d(0, -2, 0));
  CartLineConstraint c(CartLineInfo(borrow(arm), "src", "tgt", a, b), t.pos[0], VectorXd::Ones(6));
  const bool far_end = sym::flag("far");
  const double along = a.translation()(1) - s.translation()(1);
  if (far_end)
    sym::assume_le(2, along);
  else
    sym::assume_le(along, 0);
  const hu::Iso p = c.getLinePoint(s, a, b), want = far_end ? b : a;
  for (int i = 0; i < 3; ++i)
  {
    sym::check_near(p.translation()(i), want.translation()(i), 1e-9, "line-end-position");
    for (int j = 0; j < 3; ++j)
      sym::check_near(p.linear()(i, j), want.linear()(i, j), 1e-9, "line-end-orientation");
  }
}

namespace
{
struct Ik : tesseract::kinematics::KinematicGroup
{
  int dof;
  std::vector<VectorXd> solutions;
  hu::Iso pose{ hu::Iso::Identity() };
  VectorXd seed;
  long numJoints() const override { return dof; }
  bool hasLinkName(const std::string& l) const override { return l == "tcp"; }
  tesseract::kinematics::IKSolutions calcInvKin(const tesseract::kinematics::KinGroupIKInputs& in, const Eigen::Ref<const VectorXd>& s) const override
  {
    sym::check(in.size() == 1 && in[0].working_frame == "world" && in[0].tip_link_name == "tcp", "ik-request");
    for (int i = 0; i < 3; ++i)
      sym::check_eq(in[0].pose.translation()(i), pose.translation()(i), "ik-request");
    sym::check(s.size() == seed.size(), "ik-seed");
    for (Eigen::Index i = 0; i < s.size(); ++i)
      sym::check_eq(s(i), seed(i), "ik-seed");
    return solutions;
  }
};
}  // namespace

SYM_HARNESS(inverse_kinematics)
{
  sym::bound("1..2 joints, 1..3 solutions, three nodes with an extra variable");
  auto ik = std::make_shared<Ik>();
  const int dof = ik->dof = 1 + sym::choose("dof", 2);
  const int n = 1 + sym::choose("solutions", dof == 1 ? 3 : 2);
  for (int i = 0; i < n; ++i)
    ik->solutions.push_back(hu::vec_in("sol" + std::to_string(i), dof, -4, 4));
  const int layout = sym::choose("layout", 3);
  const VectorXd x = hu::vec_in("x", 3 * (dof + (layout ? 1 : 0)), -4, 4);
  hu::Traj t = hu::traj("x", 3, dof, layout, &x);
  const std::size_t at = static_cast<std::size_t>(sym::choose("node", 3)), from = static_cast<std::size_t>(sym::choose("seed-node", 3));
  ik->seed = qpart(t, static_cast<int>(from), dof, x);
  ik->pose.translation() = hu::point("pose");
  auto info = std::make_shared<InverseKinematicsInfo>(ik, "world", "tcp");
  auto c = std::make_shared<InverseKinematicsConstraint>(ik->pose, info, t.pos[at], t.pos[from]);
  c->linkWithVariables(t.vars);
  const VectorXd q = qpart(t, static_cast<int>(at), dof, x);
  auto judge = [&] {
    const VectorXd v = c->getValues();
    sym::check(v.size() == dof && c->getRows() == dof, "ik-rows");
    // the value leads to one of the solutions and no solution is nearer
    double d2 = 0;
    for (int i = 0; i < dof; ++i)
      d2 += v(i) * v(i);
    bool hit = false;
    for (const auto& s : ik->solutions)
    {
      double s2 = 0;
      bool same = true;
      for (int i = 0; i < dof; ++i)
      {
        s2 += (s(i) - q(i)) * (s(i) - q(i));
        same = same && s(i) - q(i) == v(i);
      }
      hit = hit || same;
      sym::check_le(d2, s2 + 1e-9, "ik-nearest");
    }
    sym::check(hit, "ik-value");
  };
  judge();
  const MatrixXd J = c->getJacobian().toDense();
  sym::check(J.rows() == dof && J.cols() == t.n, "jacobian-size");
  for (int i = 0; i < dof; ++i)
    for (int k = 0; k < t.n; ++k)
      sym::check_eq(J(i, k), k == t.col[at] + i ? -1.0 : 0.0, "ik-jacobian");
  const VectorXd w = c->getCoefficients();
  const auto b = c->getBounds();
  sym::check(w.size() == dof && b.size() == static_cast<std::size_t>(dof), "ik-rows");
  for (int i = 0; i < dof; ++i)
  {
    sym::check_eq(w(i), 1, "ik-coefficient");
    sym::check_eq(b[static_cast<std::size_t>(i)].getLower(), 0, "ik-bound");
    sym::check_eq(b[static_cast<std::size_t>(i)].getUpper(), 0, "ik-bound");
  }
  ik->pose.translation() = hu::point("pose2");
  c->setTargetPose(ik->pose);
  judge();
  std::vector<Bounds> ranges;
  for (int i = 0; i < dof; ++i)
    ranges.emplace_back(-1.0 - i, 2.0 + i);
  c->setBounds(ranges);
  const auto got = c->getBounds();
  sym::check(got.size() == ranges.size(), "ik-rows");
  for (std::size_t i = 0; i < got.size() && i < ranges.size(); ++i)
    sym::check(got[i].getLower() == ranges[i].getLower() && got[i].getUpper() == ranges[i].getUpper(), "ik-bound-set");
  sym::check(refuses([&] { InverseKinematicsInfo bad(ik, "world", "elsewhere"); }), "ik-refused");
}
