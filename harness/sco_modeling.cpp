// Convex objectives and constraints, convexification of functions, and the problem container of trajopt_sco.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/modeling_utils.cpp
// @unit trajopt_sco/src/num_diff.cpp
// @flag -DHAVE_BPMPD
#include "sco_model.h"
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/num_diff.hpp>
using namespace sco;

static std::shared_ptr<hs::Mock> g_model;
namespace sco
{
Model::Ptr createBPMPDModel()
{
  g_model = std::make_shared<hs::Mock>();
  return g_model;
}
}  // namespace sco

namespace
{
DblVec extend(DblVec x, const hs::Mock& m, const std::string& name, double lo)
{
  while (x.size() < m.vs.size())
    x.push_back(sym::real_in(name + std::to_string(x.size()), lo, 1e6));
  return x;
}
void assume_feasible(const ConvexObjective& o, const hs::Mock& m, const DblVec& x)
{
  for (std::size_t i = 0; i < x.size(); ++i)
  {
    if (m.vs[i].lb > -hu::INF)
      sym::assume_le(m.vs[i].lb, x[i]);
    if (m.vs[i].ub < hu::INF)
      sym::assume_le(x[i], m.vs[i].ub);
  }
  for (const auto& e : o.eqs_)
    sym::assume_eq(hs::val(e, x), 0);
  for (const auto& e : o.ineqs_)
    sym::assume_le(hs::val(e, x), 0);
}
/** The objective, minimised over the auxiliary variables it added, is `f` at x: no feasible choice is below, one reaches it. */
void check_model(const ConvexObjective& o, hs::Mock& m, const DblVec& x, double f, const std::vector<double>& witness, const char* label)
{
  const std::string l(label);
  DblVec w = x;
  w.insert(w.end(), witness.begin(), witness.end());
  sym::check(w.size() == m.vs.size(), l + "-variables");
  if (w.size() != m.vs.size())
    return;
  for (std::size_t i = 0; i < w.size(); ++i)
  {
    if (m.vs[i].lb > -hu::INF)
      sym::check_le(m.vs[i].lb, w[i], l + "-reachable");
    if (m.vs[i].ub < hu::INF)
      sym::check_le(w[i], m.vs[i].ub, l + "-reachable");
  }
  for (const auto& e : o.eqs_)
    sym::check_eq(hs::val(e, w), 0, l + "-reachable");
  for (const auto& e : o.ineqs_)
    sym::check_le(hs::val(e, w), 0, l + "-reachable");
  sym::check_eq(o.value(w), f, l + "-value");
  DblVec z = extend(x, m, "aux", -1e6);
  assume_feasible(o, m, z);
  sym::check_le(f, o.value(z), l + "-lower-bound");
}
/** What the objective put into the model is what it holds, and all of it is removed again. */
void check_lifecycle(std::shared_ptr<ConvexObjective> o, hs::Mock& m, int vars0)
{
  const int aux = m.liveVars() - vars0;
  sym::check(m.liveCnts() == 0, "lifecycle-constraints-late");
  o->addConstraintsToModel();
  sym::check(m.liveCnts() == static_cast<int>(o->eqs_.size() + o->ineqs_.size()), "lifecycle-constraints");
  DblVec x = extend({}, m, "any", -1e6);
  std::size_t k = 0;
  for (const auto& e : o->eqs_)
  {
    sym::check(m.cs[k].eq, "lifecycle-kind");
    sym::check_eq(hs::val(m.cs[k++].e, x), hs::val(e, x), "lifecycle-row");
  }
  for (const auto& e : o->ineqs_)
  {
    sym::check(!m.cs[k].eq, "lifecycle-kind");
    sym::check_eq(hs::val(m.cs[k++].e, x), hs::val(e, x), "lifecycle-row");
  }
  if (sym::flag("explicitly"))
    o->removeFromModel();
  o.reset();
  sym::check(m.liveCnts() == 0 && m.liveVars() == vars0 && !m.unknown, "lifecycle-removed");
  (void)aux;
}
}  // namespace

SYM_HARNESS(objective)
{
  sym::bound("affine, quadratic, hinge, absolute, L1, L2 and max terms of affine expressions with up to 2 terms over 2 variables");
  hs::Mock m;
  VarVector v{ m.addVar("a"), m.addVar("b") };
  DblVec x = hs::dbl("x", 2);
  const int kind = sym::choose("kind", 8);
  AffExpr e0 = hs::aff("e0", v, 2, false), e1 = hs::aff("e1", v, 1, false);
  const double v0 = hs::val(e0, x), v1 = hs::val(e1, x);
  const double c = sym::real_in("weight", 0, 100);
  auto o = std::make_shared<ConvexObjective>(&m);
  sym::check(o->inModel(), "in-model");
  double f = 0;
  std::vector<double> aux;
  switch (kind)
  {
    case 0: o->addAffExpr(e0); f = v0; break;
    case 1:
    {
      QuadExpr q = hs::quad("q", v, 1, 1, false);
      o->addQuadExpr(q);
      f = hs::val(q, x);
      break;
    }
    case 2: o->addHinge(e0, c); f = c * hu::pos(v0); aux = { hu::pos(v0) }; break;
    case 3: o->addAbs(e0, c); f = c * hu::absv(v0); aux = { hu::pos(-v0), hu::pos(v0) }; break;
    case 4: o->addHinges({ e0, e1 }); f = hu::pos(v0) + hu::pos(v1); aux = { hu::pos(v0), hu::pos(v1) }; break;
    case 5: o->addL1Norm({ e0, e1 }); f = hu::absv(v0) + hu::absv(v1); aux = { hu::pos(-v0), hu::pos(v0), hu::pos(-v1), hu::pos(v1) }; break;
    case 6: o->addL2Norm({ e0, e1 }); f = v0 * v0 + v1 * v1; break;
    default: o->addMax({ e0, e1 }); f = v0 < v1 ? v1 : v0; aux = { f }; break;
  }
  check_model(*o, m, x, f, aux, "model");
}

SYM_HARNESS(lifecycle)
{
  sym::bound("sequence of 2 hinge, absolute, max or affine terms; added to the model and removed explicitly or by destruction");
  hs::Mock m;
  VarVector v{ m.addVar("a"), m.addVar("b") };
  auto o = std::make_shared<ConvexObjective>(&m);
  for (int i = 0; i < 2; ++i)
  {
    AffExpr e = hs::aff("e" + std::to_string(i), v, 1, false);
    switch (sym::choose("kind" + std::to_string(i), 4))
    {
      case 0: o->addAffExpr(e); break;
      case 1: o->addHinge(e, 2); break;
      case 2: o->addAbs(e, 2); break;
      default: o->addMax({ e, e }); break;
    }
  }
  check_lifecycle(std::move(o), m, 2);
}

SYM_HARNESS(constraints)
{
  sym::bound("up to 2 equalities and 2 inequalities over 2 variables");
  hs::Mock m;
  VarVector v{ m.addVar("a"), m.addVar("b") };
  DblVec x = hs::dbl("x", 2);
  auto c = std::make_shared<ConvexConstraints>(&m);
  const int ne = sym::choose("equalities", 3), ni = sym::choose("inequalities", 3);
  double sum = 0;
  DblVec each;
  AffExprVector es;
  for (int i = 0; i < ne + ni; ++i)
  {
    AffExpr e = hs::aff("e" + std::to_string(i), v, 1, false);
    const double y = hs::val(e, x);
    if (i < ne)
      c->addEqCnt(e);
    else
      c->addIneqCnt(e);
    each.push_back(i < ne ? hu::absv(y) : hu::pos(y));
    sum += each.back();
    es.push_back(e);
  }
  DblVec got = c->violations(x);
  sym::check(got.size() == each.size(), "violations");
  for (std::size_t i = 0; i < std::min(got.size(), each.size()); ++i)
    sym::check_eq(got[i], each[i], "violations");
  sym::check_eq(c->violation(x), sum, "violation");
  c->addConstraintsToModel();
  sym::check(m.liveCnts() == ne + ni, "added");
  for (int i = 0; i < std::min(ne + ni, m.liveCnts()); ++i)
  {
    sym::check(m.cs[static_cast<std::size_t>(i)].eq == (i < ne), "added-kind");
    sym::check_eq(hs::val(m.cs[static_cast<std::size_t>(i)].e, x), hs::val(es[static_cast<std::size_t>(i)], x), "added-row");
  }
  if (sym::flag("explicitly"))
    c->removeFromModel();
  c.reset();
  sym::check(m.liveCnts() == 0 && m.liveVars() == 2 && !m.unknown, "removed");
}

namespace
{
struct Err
{
  Eigen::VectorXd y;
  Eigen::MatrixXd J;
  Eigen::VectorXd x0;
  Eigen::VectorXd w;
  bool numeric;
  VectorOfVector::Ptr f() const
  {
    Err s = *this;
    return VectorOfVector::construct([s](const Eigen::VectorXd& z) -> Eigen::VectorXd {
      Eigen::VectorXd r = s.y;
      for (Eigen::Index i = 0; i < r.size(); ++i)
        for (Eigen::Index j = 0; j < z.size(); ++j)
          r(i) += s.J(i, j) * (z(j) - s.x0(j));
      return r;
    });
  }
  MatrixOfVector::Ptr df() const
  {
    Eigen::MatrixXd j = J;
    return MatrixOfVector::construct([j](const Eigen::VectorXd&) { return j; });
  }
};
/** any weight however small */
double positive(const std::string& n)
{
  const double w = sym::real_in(n, 0, 100);
  sym::assume_lt(0, w);
  return w;
}
/** a derivative large enough not to be dropped as noise */
double slope(const std::string& n)
{
  const double s = sym::real_in(n, 1e-3, 100);
  return sym::flag(n + "_negative") ? -s : s;
}
/** An error function with the value y at x0 and derivative J; the variables it reads are 2 of 3 in any order. */
Err make_err(int rows, const Eigen::VectorXd& x0)
{
  Err e;
  e.y = hu::vec_in("y", rows, -100, 100);
  e.J.resize(rows, x0.size());
  for (int i = 0; i < rows; ++i)
    for (Eigen::Index j = 0; j < x0.size(); ++j)
      e.J(i, j) = sym::choose("sparse", 3) == 0 ? 0.0 : slope("J" + std::to_string(i) + std::to_string(j));
  e.x0 = x0;
  if (sym::flag("weighted"))
  {
    e.w.resize(rows);
    for (int i = 0; i < rows; ++i)
      e.w(i) = sym::flag("zero_weight") ? 0.0 : positive("w" + std::to_string(i));
  }
  e.numeric = sym::flag("numeric");
  return e;
}
VarVector pick(const VarVector& all, std::vector<int>& idx)
{
  static const int P[4][2] = { { 0, 1 }, { 1, 0 }, { 2, 0 }, { 1, 2 } };
  const int p = sym::choose("which", 4);
  idx = { P[p][0], P[p][1] };
  return { all[static_cast<std::size_t>(idx[0])], all[static_cast<std::size_t>(idx[1])] };
}
}  // namespace

SYM_HARNESS(cost_from_error)
{
  sym::bound("1 or 2 error rows (2 thorough) over 2 of 3 variables in any order; squared, absolute or hinge; weights; analytic or numeric derivative");
  hs::Mock m;
  VarVector all{ m.addVar("a"), m.addVar("b"), m.addVar("c") };
  std::vector<int> idx;
  VarVector v = pick(all, idx);
  DblVec x = hs::dbl("x", 3);
  Eigen::VectorXd x0(2);
  x0 << x[static_cast<std::size_t>(idx[0])], x[static_cast<std::size_t>(idx[1])];
  const int rows = sym::thorough() ? 2 : 1;
  Err e = make_err(rows, x0);
  const PenaltyType pen = static_cast<PenaltyType>(sym::choose("penalty", 3));
  std::unique_ptr<CostFromErrFunc> c = e.numeric ? std::make_unique<CostFromErrFunc>(e.f(), v, e.w, pen, "c") :
                                                   std::make_unique<CostFromErrFunc>(e.f(), e.df(), v, e.w, pen, "c");
  auto penalty = [&](double r) { return pen == SQUARED ? r * r : (pen == ABS ? hu::absv(r) : hu::pos(r)); };
  double exact = 0;
  for (int i = 0; i < rows; ++i)
    exact += penalty(e.y(i)) * (e.w.size() > 0 ? e.w(i) : 1.0);
  sym::check_eq(c->value(x), exact, "value");
  auto o = c->convex(x, &m);
  DblVec z = hs::dbl("z", 3);
  double f = 0;
  std::vector<double> aux;
  for (int i = 0; i < rows; ++i)
  {
    const double w = e.w.size() > 0 ? e.w(i) : 1.0;
    if (w == 0)
      continue;
    double lin = e.y(i);
    for (int j = 0; j < 2; ++j)
      lin += e.J(i, j) * (z[static_cast<std::size_t>(idx[static_cast<std::size_t>(j)])] - x0(j));
    f += penalty(lin) * w;
    if (pen == ABS)
    {
      aux.push_back(hu::pos(-lin) * w);
      aux.push_back(hu::pos(lin) * w);
    }
    if (pen == HINGE)
      aux.push_back(hu::pos(lin) * w);
  }
  check_model(*o, m, z, f, aux, "model");
  sym::check(c->getVars().size() == 2 && c->getVars()[0].var_rep == v[0].var_rep && c->getVars()[1].var_rep == v[1].var_rep, "variables");
}

SYM_HARNESS(constraint_from_error)
{
  sym::bound("2 error rows over 2 of 3 variables in any order; equality or inequality; weights; analytic or numeric derivative");
  hs::Mock m;
  VarVector all{ m.addVar("a"), m.addVar("b"), m.addVar("c") };
  std::vector<int> idx;
  VarVector v = pick(all, idx);
  DblVec x = hs::dbl("x", 3);
  Eigen::VectorXd x0(2);
  x0 << x[static_cast<std::size_t>(idx[0])], x[static_cast<std::size_t>(idx[1])];
  const int rows = 2;
  Err e;
  {
    e = make_err(1, x0);
    e.y.conservativeResize(2);
    e.y(1) = sym::real_in("y1", -100, 100);
    e.J.conservativeResize(2, 2);
    e.J(1, 0) = slope("J10");
    e.J(1, 1) = 0;
    if (e.w.size() > 0)
    {
      e.w.conservativeResize(2);
      e.w(1) = positive("w1");
    }
  }
  const ConstraintType type = sym::flag("equality") ? EQ : INEQ;
  std::unique_ptr<ConstraintFromErrFunc> c = e.numeric ? std::make_unique<ConstraintFromErrFunc>(e.f(), v, e.w, type, "c") :
                                                         std::make_unique<ConstraintFromErrFunc>(e.f(), e.df(), v, e.w, type, "c");
  sym::check(c->type() == type, "type");
  sym::check(c->getVars().size() == 2 && c->getVars()[0].var_rep == v[0].var_rep && c->getVars()[1].var_rep == v[1].var_rep, "variables");
  DblVec val = c->value(x), viol = c->violations(x);
  double sum = 0;
  for (int i = 0; i < rows; ++i)
  {
    const double y = e.y(i) * (e.w.size() > 0 ? e.w(i) : 1.0);
    sym::check_eq(val[static_cast<std::size_t>(i)], y, "value");
    sym::check_eq(viol[static_cast<std::size_t>(i)], type == EQ ? hu::absv(y) : hu::pos(y), "violations");
    sum += type == EQ ? hu::absv(y) : hu::pos(y);
  }
  sym::check_eq(c->violation(x), sum, "violation");
  auto o = c->convex(x, &m);
  DblVec z = hs::dbl("z", 3);
  AffExprVector& got = type == EQ ? o->eqs_ : o->ineqs_;
  sym::check((type == EQ ? o->ineqs_ : o->eqs_).empty(), "model-kind");
  std::size_t k = 0;
  for (int i = 0; i < rows; ++i)
  {
    const double w = e.w.size() > 0 ? e.w(i) : 1.0;
    if (w == 0)
      continue;
    double lin = e.y(i);
    for (int j = 0; j < 2; ++j)
      lin += e.J(i, j) * (z[static_cast<std::size_t>(idx[static_cast<std::size_t>(j)])] - x0(j));
    sym::check(k < got.size(), "model-rows");
    if (k < got.size())
      sym::check_eq(hs::val(got[k++], z), w * lin, "model-row");
  }
  sym::check(k == got.size(), "model-rows");
}

SYM_HARNESS(cost_from_function)
{
  sym::bound("separable quadratic function of 2 of 3 variables, any curvature signs; diagonal Hessian");
  hs::Mock m;
  VarVector all{ m.addVar("a"), m.addVar("b"), m.addVar("c") };
  std::vector<int> idx;
  VarVector v = pick(all, idx);
  DblVec x = hs::dbl("x", 3, -10, 10);
  const double c0 = sym::real_in("c0", -100, 100);
  Eigen::VectorXd g = hu::vec_in("g", 2, -100, 100), h = hu::vec_in("h", 2, -100, 100);
  auto fun = [=](const Eigen::VectorXd& z) { return c0 + g(0) * z(0) + g(1) * z(1) + h(0) * z(0) * z(0) + h(1) * z(1) * z(1); };
  CostFromFunc c(ScalarOfVector::construct(fun), v, "c", false);
  Eigen::VectorXd x0(2);
  x0 << x[static_cast<std::size_t>(idx[0])], x[static_cast<std::size_t>(idx[1])];
  sym::check_eq(c.value(x), fun(x0), "value");
  sym::check(c.getVars().size() == 2 && c.getVars()[0].var_rep == v[0].var_rep && c.getVars()[1].var_rep == v[1].var_rep, "variables");
  auto o = c.convex(x, &m);
  sym::check(m.liveVars() == 3 && o->eqs_.empty() && o->ineqs_.empty(), "no-auxiliaries");
  DblVec z = hs::dbl("z", 3, -10, 10);
  double f = fun(x0);
  for (int j = 0; j < 2; ++j)
  {
    const double d = z[static_cast<std::size_t>(idx[static_cast<std::size_t>(j)])] - x0(j);
    f += (g(j) + 2 * h(j) * x0(j)) * d + hu::pos(h(j)) * d * d;
  }
  sym::check_near(o->value(z), f, 1e-6, "model");
}

SYM_HARNESS(cost_from_function_full)
{
  sym::bound("quadratic function of 2 variables with any linear part and one of 6 Hessians (definite, indefinite, singular, coupled)");
  hs::Mock m;
  VarVector all{ m.addVar("a"), m.addVar("b"), m.addVar("c") };
  std::vector<int> idx;
  VarVector v = pick(all, idx);
  DblVec x = hs::dbl("x", 3, -10, 10), z = hs::dbl("z", 3, -10, 10);
  const double c0 = sym::real_in("c0", -10, 10);
  Eigen::VectorXd g = hu::vec_in("g", 2, -10, 10);
  static const double HS[6][3] = { { 2, 0, 3 }, { 2, 1, 2 }, { 1, 2, 1 }, { -1, 0, 2 }, { -2, 1, -2 }, { 1, 1, 1 } };
  const double* H = HS[sym::choose("hessian", 6)];
  auto fun = [=](const Eigen::VectorXd& y) {
    return c0 + g(0) * y(0) + g(1) * y(1) + 0.5 * (H[0] * y(0) * y(0) + 2 * H[1] * y(0) * y(1) + H[2] * y(1) * y(1));
  };
  CostFromFunc c(ScalarOfVector::construct(fun), v, "c", true);
  Eigen::VectorXd x0(2), d(2);
  for (int j = 0; j < 2; ++j)
  {
    x0(j) = x[static_cast<std::size_t>(idx[static_cast<std::size_t>(j)])];
    d(j) = z[static_cast<std::size_t>(idx[static_cast<std::size_t>(j)])] - x0(j);
  }
  auto o = c.convex(x, &m);
  // positive part of the Hessian in closed form
  const double tr = H[0] + H[2], det = H[0] * H[2] - H[1] * H[1], s = std::sqrt(tr * tr / 4 - det);
  const double l1 = tr / 2 - s, l2 = tr / 2 + s;
  Eigen::Matrix2d M, P = Eigen::Matrix2d::Zero();
  M << H[0], H[1], H[1], H[2];
  if (l1 > 0)
    P = M;
  else if (l2 > 0)
    P = l2 / (l2 - l1) * (M - l1 * Eigen::Matrix2d::Identity());
  double f = fun(x0);
  f += (g(0) + H[0] * x0(0) + H[1] * x0(1)) * d(0) + (g(1) + H[1] * x0(0) + H[2] * x0(1)) * d(1);
  f += 0.5 * (P(0, 0) * d(0) * d(0) + 2 * P(0, 1) * d(0) * d(1) + P(1, 1) * d(1) * d(1));
  sym::check_near(o->value(z), f, 0.02, "model");
}

SYM_HARNESS(derivatives)
{
  sym::bound("quadratic functions of 2 variables, every point, step in [1e-6, 1]");
  const double eps = sym::real_in("eps", 1e-6, 1);
  Eigen::VectorXd x = hu::vec_in("x", 2, -100, 100), g = hu::vec_in("g", 2, -100, 100), h = hu::vec_in("h", 3, -100, 100);
  const double c0 = sym::real_in("c0", -100, 100);
  auto fun = [=](const Eigen::VectorXd& z) {
    return c0 + g(0) * z(0) + g(1) * z(1) + h(0) * z(0) * z(0) + h(1) * z(0) * z(1) + h(2) * z(1) * z(1);
  };
  auto s = ScalarOfVector::construct(fun);
  auto vec = VectorOfVector::construct([=](const Eigen::VectorXd& z) -> Eigen::VectorXd {
    Eigen::VectorXd r(3);
    r << fun(z), z(0) * g(1), z(1) * z(1);
    return r;
  });
  Eigen::VectorXd d(2);
  d << g(0) + 2 * h(0) * x(0) + h(1) * x(1), g(1) + 2 * h(2) * x(1) + h(1) * x(0);
  sym::check_eq(s->call(x), fun(x), "call");
  Eigen::VectorXd fg = calcForwardNumGrad(*s, x, eps);
  Eigen::VectorXd fg2 = forwardNumGrad(s, eps)->call(x);
  Eigen::MatrixXd fj = calcForwardNumJac(*vec, x, eps);
  Eigen::MatrixXd fj2 = forwardNumJac(vec, eps)->call(x);
  sym::check(fg.size() == 2 && fg2.size() == 2 && fj.rows() == 3 && fj.cols() == 2 && fj2.rows() == 3 && fj2.cols() == 2, "size");
  for (int i = 0; i < 2; ++i)
  {
    const double e = d(i) + eps * h(i == 0 ? 0 : 2);
    sym::check_eq(fg(i), e, "gradient");
    sym::check_eq(fg2(i), e, "gradient");
    sym::check_eq(fj(0, i), e, "jacobian");
    sym::check_eq(fj2(0, i), e, "jacobian");
    sym::check_eq(fj(1, i), i == 0 ? g(1) : 0.0, "jacobian");
    sym::check_eq(fj(2, i), i == 1 ? 2 * x(1) + eps : 0.0, "jacobian");
  }
  double y = 0;
  Eigen::VectorXd gr, dh;
  calcGradAndDiagHess(*s, x, eps, y, gr, dh);
  sym::check_eq(y, fun(x), "central-value");
  for (int i = 0; i < 2; ++i)
  {
    sym::check_eq(gr(i), d(i), "central-gradient");
    sym::check_eq(dh(i), 2 * h(i == 0 ? 0 : 2), "central-hessian");
  }
  Eigen::MatrixXd H;
  calcGradHess(s, x, eps, y, gr, H);
  sym::check_eq(y, fun(x), "value");
  for (int i = 0; i < 2; ++i)
    sym::check_eq(gr(i), d(i) + eps * h(i == 0 ? 0 : 2), "hessian-gradient");
  sym::check_eq(H(0, 0), 2 * h(0), "hessian");
  sym::check_eq(H(1, 1), 2 * h(2), "hessian");
  sym::check_eq(H(0, 1), h(1), "hessian");
  sym::check_eq(H(1, 0), h(1), "hessian");
}

SYM_HARNESS(problem_bounds)
{
  sym::bound("2 variables created in 2 calls; bounds replaced as a whole or for chosen variables; closest feasible point for any point, finite or infinite bounds");
  OptProb p(ModelType::BPMPD);
  DblVec lb, ub;
  for (int i = 0; i < 2; ++i)
  {
    lb.push_back(sym::choose("lower", 2) == 0 ? -hu::INF : sym::real_in("lb" + std::to_string(i), -100, 100));
    ub.push_back(sym::choose("upper", 2) == 0 ? hu::INF : sym::real_in("ub" + std::to_string(i), -100, 100));
    if (lb.back() > -hu::INF && ub.back() < hu::INF)
      sym::assume_le(lb.back(), ub.back());
  }
  VarVector all;
  switch (sym::choose("how", 4))
  {
    case 0: all = p.createVariables({ "a", "b" }, lb, ub); break;
    case 1:
    {
      VarVector a = p.createVariables({ "a" }, { lb[0] }, { ub[0] }), b = p.createVariables({ "b" }, { lb[1] }, { ub[1] });
      sym::check(a.size() == 1 && b.size() == 1, "created");
      all = { a[0], b[0] };
      break;
    }
    case 2:
      all = p.createVariables({ "a", "b" });
      p.setLowerBounds(lb);
      p.setUpperBounds(ub);
      break;
    default:
      all = p.createVariables({ "a", "b" });
      p.setLowerBounds({ lb[1], lb[0] }, { all[1], all[0] });
      p.setUpperBounds({ ub[1] }, { all[1] });
      p.setUpperBounds({ ub[0] }, { all[0] });
  }
  bool ok = all.size() == 2 && p.getNumVars() == 2 && p.getLowerBounds().size() == 2 && p.getUpperBounds().size() == 2;
  sym::check(ok, "created");
  if (!ok)
    return;
  for (std::size_t i = 0; i < 2; ++i)
  {
    sym::check(all[i].var_rep->index == i && p.getVars()[i].var_rep == all[i].var_rep, "created");
    sym::check_eq(p.getLowerBounds()[i], lb[i], "bounds");
    sym::check_eq(p.getUpperBounds()[i], ub[i], "bounds");
  }
  DblVec x = hs::dbl("x", 2, -1000, 1000);
  const double delta = sym::flag("default_delta") ? 1e-3 : sym::real_in("delta", 0, 10);
  DblVec y = p.getClosestFeasiblePoint(x, delta);
  for (std::size_t i = 0; i < 2; ++i)
  {
    sym::check_le(lb[i], y[i], "feasible");
    sym::check_le(y[i], ub[i], "feasible");
    // a point that is inside by more than delta stays
    bool inside = true;
    if (lb[i] > -hu::INF)
      inside = inside && x[i] >= lb[i] + delta;
    if (ub[i] < hu::INF)
      inside = inside && x[i] <= ub[i] - delta;
    if (inside)
      sym::check_eq(y[i], x[i], "unchanged-inside");
    // and no point is moved further than needed
    const double need = hu::dist(x[i], lb[i], ub[i]);
    sym::check_le(hu::absv(y[i] - x[i]), need + delta, "closest");
  }
}

SYM_HARNESS(problem_qp)
{
  sym::bound("2 variables; the projection QP for any point; solver succeeds or fails; central point for finite bounds");
  sym::require_cover("failed");
  OptProb p(ModelType::BPMPD);
  DblVec lb = hs::dbl("lb", 2), ub;
  for (int i = 0; i < 2; ++i)
    ub.push_back(lb[static_cast<std::size_t>(i)] + sym::real_in("width" + std::to_string(i), 0, 100));
  VarVector all = p.createVariables({ "a", "b" });
  p.setLowerBounds(lb);
  p.setUpperBounds(ub);
  auto m = g_model;
  DblVec x = hs::dbl("x", 2), sol = hs::dbl("sol", 2);
  const bool fails = sym::flag("fails");
  bool called = false;
  m->solver = [&] {
    called = true;
    for (std::size_t i = 0; i < 2; ++i)
    {
      sym::check_eq(m->vs[i].lb, lb[i], "qp-bounds");
      sym::check_eq(m->vs[i].ub, ub[i], "qp-bounds");
    }
    DblVec z = hs::dbl("z", 2);
    sym::check_eq(hs::val(m->objective, z), (z[0] - x[0]) * (z[0] - x[0]) + (z[1] - x[1]) * (z[1] - x[1]), "qp-objective");
    return fails ? CVX_FAILED : CVX_SOLVED;
  };
  m->values = [&](const VarVector& v) {
    DblVec r;
    for (const auto& y : v)
      r.push_back(sol[y.var_rep->index]);
    return r;
  };
  bool thrown = false;
  DblVec y;
  try
  {
    y = p.getClosestFeasiblePointQP(x);
  }
  catch (const std::exception&)
  {
    thrown = true;
  }
  sym::check(called && thrown == fails, "qp-failure");
  if (fails)
    sym::cover("failed");
  if (!thrown)
    for (std::size_t i = 0; i < 2; ++i)
      sym::check_eq(y[i], sol[i], "qp-solution");
  DblVec c = p.getCentralFeasiblePoint(x);
  for (std::size_t i = 0; i < 2; ++i)
    sym::check_eq(c[i], (lb[i] + ub[i]) / 2, "central");
}

namespace
{
struct NamedCnt : Constraint
{
  ConstraintType t;
  explicit NamedCnt(ConstraintType t_) : t(t_) {}
  ConstraintType type() override { return t; }
  DblVec value(const DblVec&) override { return {}; }
  ConvexConstraints::Ptr convex(const DblVec&, Model*) override { return nullptr; }
  VarVector getVars() override { return {}; }
};
}  // namespace

SYM_HARNESS(problem_terms)
{
  sym::bound("up to 4 constraints of either kind in any order, linear constraints of either kind");
  OptProb p(ModelType::BPMPD);
  VarVector all = p.createVariables({ "a", "b" });
  std::vector<Constraint::Ptr> eq, ineq;
  const int n = sym::choose("count", 5);
  for (int i = 0; i < n; ++i)
  {
    const bool e = sym::flag("equality");
    auto c = std::make_shared<NamedCnt>(e ? EQ : INEQ);
    p.addConstraint(c);
    (e ? eq : ineq).push_back(c);
  }
  sym::check(p.getEqConstraints() == eq && p.getIneqConstraints() == ineq && p.getNumConstraints() == n, "constraints");
  std::vector<Constraint::Ptr> both = eq;
  both.insert(both.end(), ineq.begin(), ineq.end());
  sym::check(p.getConstraints() == both, "constraints");
  AffExpr e = hs::aff("e", all, 1, false);
  const bool lineq = sym::flag("linear_equality");
  p.addLinearConstraint(e, lineq ? EQ : INEQ);
  DblVec x = hs::dbl("x", 2);
  sym::check(g_model->liveCnts() == 1 && g_model->cs[0].eq == lineq, "linear");
  sym::check_eq(hs::val(g_model->cs[0].e, x), hs::val(e, x), "linear");
}
