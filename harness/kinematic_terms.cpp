// Kinematic error and Jacobian calculators of trajopt (sco stack).
// @unit trajopt/src/kinematic_terms.cpp
// @unit trajopt/src/utils.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/expr_ops.cpp
#include "kinematics.h"
#include <trajopt/kinematic_terms.hpp>
#include <trajopt/utils.hpp>
#include <stdexcept>
using namespace trajopt;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
// ---- exact derivatives: every number carries its gradient --------------------------------------------------------------
struct Dual
{
  double v{ 0 };
  std::vector<double> d;
};
Dual var(const VectorXd& x, int i)
{
  Dual r{ x(i), std::vector<double>(static_cast<std::size_t>(x.size()), 0.0) };
  r.d[static_cast<std::size_t>(i)] = 1;
  return r;
}
Dual operator+(Dual a, const Dual& b)
{
  a.v += b.v;
  for (std::size_t i = 0; i < a.d.size(); ++i)
    a.d[i] += b.d[i];
  return a;
}
Dual operator-(Dual a, const Dual& b)
{
  a.v -= b.v;
  for (std::size_t i = 0; i < a.d.size(); ++i)
    a.d[i] -= b.d[i];
  return a;
}
Dual operator*(const Dual& a, const Dual& b)
{
  Dual r{ a.v * b.v, a.d };
  for (std::size_t i = 0; i < r.d.size(); ++i)
    r.d[i] = a.d[i] * b.v + a.v * b.d[i];
  return r;
}
Dual operator/(const Dual& a, const Dual& b)
{
  Dual r{ a.v / b.v, a.d };
  for (std::size_t i = 0; i < r.d.size(); ++i)
    r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v;
  return r;
}
Dual scale(double s, Dual a)
{
  a.v *= s;
  for (double& x : a.d)
    x *= s;
  return a;
}
/** velocities, accelerations and jerks of one joint: positions in the first half, 1/dt in the second (the entry of the later
 *  point belongs to the segment) */
struct Motion
{
  std::vector<Dual> vel, acc, jerk;
};
Motion motion(const VectorXd& x)
{
  const int n = static_cast<int>(x.size()) / 2;
  auto q = [&](int i) { return var(x, i); };
  auto r = [&](int i) { return var(x, n + i); };
  Motion m;
  for (int i = 0; i + 1 < n; ++i)
    m.vel.push_back((q(i + 1) - q(i)) * r(i + 1));
  for (int i = 0; i + 2 < n; ++i)
    m.acc.push_back(scale(2, (m.vel[static_cast<std::size_t>(i + 1)] - m.vel[static_cast<std::size_t>(i)]) / (r(i + 1) + r(i + 2))));
  for (int i = 0; i + 3 < n; ++i)
    m.jerk.push_back(scale(3, (m.acc[static_cast<std::size_t>(i + 1)] - m.acc[static_cast<std::size_t>(i)]) / (r(i + 1) + r(i + 2) + r(i + 3))));
  return m;
}
/** symbolic joint values; the times are symbolic too when `timed`, else a few concrete ones */
VectorXd timed_values(int n, bool timed)
{
  VectorXd x(2 * n);
  const double table[3][5] = { { 1, 1, 1, 1, 1 }, { 2, 0.5, 4, 1, 0.25 }, { 0.5, 8, 0.125, 2, 3 } };
  const int k = timed ? 0 : sym::choose("times", 3);
  for (int i = 0; i < n; ++i)
    x(i) = sym::real_in("q" + std::to_string(i), -16, 16);
  for (int i = 0; i < n; ++i)
    x(n + i) = timed ? sym::real_in("r" + std::to_string(i), 0.25, 8) : table[k][i];
  return x;
}
void compare(const MatrixXd& J, const std::vector<Dual>& f, double sign, int row0, const char* label)
{
  for (std::size_t i = 0; i < f.size(); ++i)
    for (std::size_t c = 0; c < f[i].d.size(); ++c)
      sym::check_eq(J(row0 + static_cast<int>(i), static_cast<Eigen::Index>(c)), sign * f[i].d[c], label);
}
}  // namespace

SYM_HARNESS(joint_velocity)
{
  sym::bound("one joint over 2..5 points, arbitrary positions in [-16, 16] and inverse times in [1/4, 8]");
  const int n = 2 + sym::choose("points", sym::thorough() ? 5 : 4);
  const VectorXd x = timed_values(n, true);
  const double target = sym::real("target"), up = sym::real("upper"), lo = sym::real("lower");
  const JointVelErrCalculator f(target, up, lo);
  const JointVelJacCalculator g;
  const VectorXd e = f(x);
  const MatrixXd J = g(x);
  const Motion m = motion(x);
  const int k = static_cast<int>(m.vel.size());
  sym::check(e.size() == 2 * k, "velocity-rows");
  sym::check(J.rows() == e.size() && J.cols() == x.size(), "velocity-jacobian-size");
  sym::require_cover("velocity");
  sym::cover("velocity");
  for (int i = 0; i < k; ++i)
  {
    sym::check_eq(e(i), m.vel[static_cast<std::size_t>(i)].v - target - up, "velocity-above");
    sym::check_eq(e(k + i), lo - (m.vel[static_cast<std::size_t>(i)].v - target), "velocity-below");
  }
  compare(J, m.vel, 1, 0, "velocity-jacobian-above");
  compare(J, m.vel, -1, k, "velocity-jacobian-below");
}

SYM_HARNESS(joint_acceleration)
{
  sym::bound("one joint over 3..5 points, arbitrary positions in [-16, 16]; inverse times arbitrary in [1/4, 8] (3 points) or one of 3 concrete sets");
  const bool timed = sym::flag("timed");
  const int n = timed ? 3 : 3 + sym::choose("points", 3);
  const VectorXd x = timed_values(n, timed);
  const double limit = sym::real("limit");
  const JointAccErrCalculator f(limit);
  const JointAccJacCalculator g;
  const VectorXd e = f(x);
  const MatrixXd J = g(x);
  const Motion m = motion(x);
  sym::check(e.size() == n - 2 && J.rows() == e.size() && J.cols() == x.size(), "acceleration-size");
  for (int i = 0; i < n - 2; ++i)
    sym::check_eq(e(i), m.acc[static_cast<std::size_t>(i)].v - limit, "acceleration-value");
  compare(J, m.acc, 1, 0, "acceleration-jacobian");
}

SYM_HARNESS(joint_jerk)
{
  sym::bound("one joint over 4..5 points, arbitrary positions in [-16, 16]; inverse times arbitrary in [1/4, 8] (4 points) or one of 3 concrete sets");
  const bool timed = sym::flag("timed");
  const int n = timed ? 4 : 4 + sym::choose("points", 2);
  const VectorXd x = timed_values(n, timed);
  const double limit = sym::real("limit");
  const JointJerkErrCalculator f(limit);
  const JointJerkJacCalculator g;
  const VectorXd e = f(x);
  const MatrixXd J = g(x);
  const Motion m = motion(x);
  sym::check(e.size() == n - 3 && J.rows() == e.size() && J.cols() == x.size(), "jerk-size");
  for (int i = 0; i < n - 3; ++i)
    sym::check_eq(e(i), m.jerk[static_cast<std::size_t>(i)].v - limit, "jerk-value");
  compare(J, m.jerk, 1, 0, "jerk-jacobian");
}

SYM_HARNESS(total_time)
{
  sym::bound("1..4 inverse times in [1/4, 8]");
  const int n = 1 + sym::choose("points", 4);
  VectorXd x(n);
  for (int i = 0; i < n; ++i)
    x(i) = sym::real_in("r" + std::to_string(i), 0.25, 8);
  const double limit = sym::real("limit");
  const VectorXd e = TimeCostCalculator(limit)(x);
  const MatrixXd J = TimeCostJacCalculator()(x);
  sym::check(e.size() == 1 && J.rows() == 1 && J.cols() == n, "time-size");
  double s = -limit;
  for (int i = 0; i < n; ++i)
    s += 1.0 / x(i);
  sym::check_eq(e(0), s, "time-value");
  for (int i = 0; i < n; ++i)
    sym::check_eq(J(0, i) * x(i) * x(i), -1.0, "time-jacobian");
}

// ---- Cartesian ---------------------------------------------------------------------------------------------------------
namespace
{
struct Setup
{
  hu::Chain chain;
  std::string source{ "src" }, target{ "tgt" };
  bool source_moves, target_moves;
  hu::Iso so, to;
  Eigen::VectorXi idx;
  VectorXd q, lower, upper;
  std::shared_ptr<const tesseract::kinematics::JointGroup> kin;
  Setup(int dof, bool sm, bool tm, bool banded) : chain(dof), source_moves(sm), target_moves(tm)
  {
    const int r = sym::choose("orientation", 2);
    const bool spins = !(sm && tm && banded) && sym::flag("spins");
    if (sm)
      chain.moving(source, 2 * r, spins);
    else
      chain.fixed(source, 2 * r);
    if (tm)
      chain.moving(target, r, spins);
    else
      chain.fixed(target, r);
    so = hu::iso(hu::turn(r ? 3 : 1), hu::point("so"));
    to = hu::iso(hu::turn(r ? 1 : 2), hu::point("to"));
    const std::vector<std::vector<int>> sets = { { 0, 1, 2, 3, 4, 5 }, { 5, 0 }, { 4 } };
    const auto& s = sets[static_cast<std::size_t>(banded ? 1 + sym::choose("rows", 2) : sym::choose("rows", 3))];
    idx.resize(static_cast<Eigen::Index>(s.size()));
    for (std::size_t i = 0; i < s.size(); ++i)
      idx(static_cast<Eigen::Index>(i)) = s[i];
    q = hu::vec_in("q", dof, -4, 4);
    if (banded)
    {
      lower = VectorXd::Constant(6, -1e4);
      upper = VectorXd::Constant(6, 1e4);
      for (int i : s)
      {
        lower(i) = sym::real_in("lo" + std::to_string(i), -2, 2);
        upper(i) = lower(i) + sym::real_in("width" + std::to_string(i), 0.01, 2);
      }
    }
    kin = std::shared_ptr<const tesseract::kinematics::JointGroup>(&chain, [](const tesseract::kinematics::JointGroup*) {});
  }
  /** the error by the documentation: pose of one frame in the other, brought to the band */
  VectorXd error(const VectorXd& qq, bool source_in_target) const
  {
    const hu::Iso s = chain.pose(source, qq) * so, t = chain.pose(target, qq) * to;
    const VectorXd e = source_in_target ? tesseract::common::calcTransformError(t, s) : tesseract::common::calcTransformError(s, t);
    VectorXd out(idx.size());
    for (Eigen::Index i = 0; i < idx.size(); ++i)
    {
      out(i) = e(idx(i));
      if (lower.size() != 0)
      {
        const double lo = lower(idx(i)), up = upper(idx(i));
        out(i) = out(i) < lo ? out(i) - lo : (out(i) > up ? out(i) - up : 0.0);
      }
    }
    return out;
  }
};
template <class F, class G>
void pose_error(Setup& s, bool source_in_target)
{
  const F f(s.kin, s.source, s.target, s.so, s.to, s.idx, s.lower, s.upper);
  const G g(s.kin, s.source, s.target, s.so, s.to, s.idx, s.lower, s.upper);
  const VectorXd e = f(s.q);
  const VectorXd want = s.error(s.q, source_in_target);
  sym::check(e.size() == want.size(), "pose-rows");
  for (Eigen::Index i = 0; i < want.size(); ++i)
    sym::check_eq(e(i), want(i), "pose-error");
  const MatrixXd J = g(s.q);
  sym::check(J.rows() == e.size() && J.cols() == s.q.size(), "pose-jacobian-size");
  for (Eigen::Index j = 0; j < s.q.size(); ++j)
  {
    VectorXd p = s.q;
    p(j) += DEFAULT_EPSILON;
    const VectorXd ep = s.error(p, source_in_target);
    for (Eigen::Index i = 0; i < want.size(); ++i)
      sym::check_near(J(i, j) * DEFAULT_EPSILON, ep(i) - want(i), 1e-9, "pose-jacobian");
  }
  const VectorXd again = f(s.q);
  for (Eigen::Index i = 0; i < want.size(); ++i)
    sym::check_eq(again(i), want(i), "pose-error-repeated");
}
}  // namespace

SYM_HARNESS(pose)
{
  sym::bound("2 joints, one of the frames moving, poses affine in the joints, frame offsets from 2 orientations, 1..6 rows");
  const bool tm = sym::flag("target-moves");
  Setup s(2, !tm, tm, false);
  pose_error<CartPoseErrCalculator, CartPoseJacCalculator>(s, !tm);
}
SYM_HARNESS(pose_banded)
{
  sym::bound("tolerance bands of width 0.01..2 on 1..2 rows, 1 joint");
  const bool tm = sym::flag("target-moves");
  Setup s(1, !tm, tm, true);
  pose_error<CartPoseErrCalculator, CartPoseJacCalculator>(s, !tm);
}
SYM_HARNESS(pose_dynamic)
{
  sym::bound("2 joints (1 with bands), both frames moving, poses affine in the joints");
  const bool banded = sym::flag("banded");
  Setup s(banded ? 1 : 2, true, true, banded);
  pose_error<DynamicCartPoseErrCalculator, DynamicCartPoseJacCalculator>(s, true);
}
SYM_HARNESS(pose_refusals)
{
  sym::bound("bands of 0, 1, 6 and 6 components; any inversion");
  Setup s(1, false, true, false);
  const int lower_n = sym::choose("lower", 3), upper_n = sym::choose("upper", 3);
  const int sizes[3] = { 0, 1, 6 };
  s.lower = VectorXd::Zero(sizes[lower_n]);
  s.upper = VectorXd::Zero(sizes[upper_n]);
  bool inverted = false;
  if (lower_n == upper_n && lower_n != 0)
  {
    const int k = sym::choose("component", sizes[lower_n]);
    s.lower(k) = sym::real_in("l", -1, 1);
    s.upper(k) = sym::real_in("u", -1, 1);
    inverted = s.upper(k) < s.lower(k);
  }
  const bool bad = lower_n != upper_n || inverted;
  auto refuses = [&](auto make) {
    try
    {
      make();
    }
    catch (const std::runtime_error&)
    {
      return true;
    }
    return false;
  };
  sym::require_cover("inverted");
  if (inverted)
    sym::cover("inverted");
  sym::check(refuses([&] { CartPoseErrCalculator x(s.kin, s.source, s.target, s.so, s.to, s.idx, s.lower, s.upper); }) == bad, "band-refused");
  sym::check(refuses([&] { CartPoseJacCalculator x(s.kin, s.source, s.target, s.so, s.to, s.idx, s.lower, s.upper); }) == bad, "band-refused");
  sym::check(refuses([&] { DynamicCartPoseErrCalculator x(s.kin, s.source, s.target, s.so, s.to, s.idx, s.lower, s.upper); }) == bad, "band-refused");
  sym::check(refuses([&] { DynamicCartPoseJacCalculator x(s.kin, s.source, s.target, s.so, s.to, s.idx, s.lower, s.upper); }) == bad, "band-refused");
}

namespace
{
/** the velocity of a point of the tool: Jacobian of the link shifted by the point */
struct Arm : hu::Chain
{
  using hu::Chain::Chain;
  using hu::Chain::calcJacobian;
  MatrixXd at(const VectorXd& q, const Eigen::Vector3d& point) const
  {
    // exact derivative of p(q) + R(q) point, and something for the rotation rows
    MatrixXd J = MatrixXd::Constant(6, dof, 77);
    const Link& l = links.at("tool");
    for (int j = 0; j < dof; ++j)
      J.col(j).head(3) = l.dp[static_cast<std::size_t>(j)] * (1 + q(j)) + l.dR[static_cast<std::size_t>(j)] * point * (1 + q(j));
    return J;
  }
  // pose quadratic in the joints, so that the Jacobian depends on the joint values
  void calcFwdKin(tesseract::common::TransformMap& t, const Q& q) const override
  {
    VectorXd u = q;
    for (Eigen::Index j = 0; j < u.size(); ++j)
      u(j) = q(j) + 0.5 * q(j) * q(j);
    t["tool"] = pose("tool", u);
  }
  MatrixXd calcJacobian(const Q& q, const std::string& b, const std::string& l) const override
  {
    sym::check(b == base && l == "tool", "cartvel-link");
    return at(q, Eigen::Vector3d::Zero());
  }
  MatrixXd calcJacobian(const Q& q, const std::string& b, const std::string& l, const V3& p) const override
  {
    sym::check(b == base && l == "tool", "cartvel-link");
    return at(q, p);
  }
};
}  // namespace

SYM_HARNESS(cartesian_velocity)
{
  sym::bound("1..2 joints, tool pose quadratic in the joints, with and without a tool offset");
  const int dof = 1 + sym::choose("dof", 2);
  Arm arm(dof);
  arm.moving("tool", sym::choose("orientation", 2), true);
  const bool offset = sym::flag("offset");
  hu::Iso tcp = hu::Iso::Identity();
  if (offset)
  {
    tcp = hu::iso(hu::turn(2), hu::point("tcp"));
    tcp.translation()(1) = sym::real_in("tcpy1", 0.5, 4);
  }
  const double limit = sym::real_in("limit", 0, 4);
  std::shared_ptr<const tesseract::kinematics::JointGroup> kin(&arm, [](const tesseract::kinematics::JointGroup*) {});
  const CartVelErrCalculator f(kin, "tool", limit, tcp);
  const CartVelJacCalculator g(kin, "tool", limit, tcp);
  const VectorXd x = hu::vec_in("q", 2 * dof, -2, 2);
  const VectorXd e = f(x);
  const MatrixXd J = g(x);
  sym::check(e.size() == 6 && J.rows() == 6 && J.cols() == 2 * dof, "cartvel-size");
  tesseract::common::TransformMap a, b;
  arm.calcFwdKin(a, x.head(dof));
  arm.calcFwdKin(b, x.tail(dof));
  const Eigen::Vector3d step = (b["tool"] * tcp).translation() - (a["tool"] * tcp).translation();
  const MatrixXd Ja = arm.at(x.head(dof), tcp.translation()), Jb = arm.at(x.tail(dof), tcp.translation());
  for (int i = 0; i < 3; ++i)
  {
    sym::check_eq(e(i), step(i) - limit, "cartvel-forward");
    sym::check_eq(e(3 + i), -step(i) - limit, "cartvel-backward");
    for (int j = 0; j < dof; ++j)
    {
      sym::check_eq(J(i, j), -Ja(i, j), "cartvel-jacobian");
      sym::check_eq(J(i, dof + j), Jb(i, j), "cartvel-jacobian");
      sym::check_eq(J(3 + i, j), Ja(i, j), "cartvel-jacobian");
      sym::check_eq(J(3 + i, dof + j), -Jb(i, j), "cartvel-jacobian");
    }
  }
}
