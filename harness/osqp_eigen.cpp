// The QP solver of trajopt_sqp against a recording OsqpEigen: what is solved is what was last given.
// @unit trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
// @flag -I/verif/stubs/osqp -I/verif/stubs/osqpeigen
#include "util.h"
#include <OsqpEigen/OsqpEigen.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/qp_problem.h>
using namespace trajopt_sqp;
using O = OsqpEigen::Solver;

namespace
{
struct Problem : QPProblem
{
  Eigen::VectorXd x, box, merit, q, l, u, viol;
  trajopt_ifopt::Jacobian H, A;
  Eigen::Index nlp{ 1 };
  std::vector<std::string> names;
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double*) override {}
  Eigen::VectorXd getVariableValues() const override { return x; }
  void convexify() override {}
  double evaluateTotalConvexCost(const Eigen::Ref<const Eigen::VectorXd>&) const override { return 0; }
  Eigen::VectorXd evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>&) const override { return {}; }
  double getTotalExactCost() const override { return 0; }
  Eigen::VectorXd getExactCosts() const override { return {}; }
  Eigen::VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const Eigen::VectorXd>&) const override { return viol; }
  Eigen::VectorXd getExactConstraintViolations() const override { return viol; }
  void scaleBoxSize(double&) override {}
  void setBoxSize(const Eigen::Ref<const Eigen::VectorXd>&) override {}
  void setConstraintMeritCoeff(const Eigen::Ref<const Eigen::VectorXd>&) override {}
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return nlp; }
  Eigen::Index getNumNLPConstraints() const override { return viol.size(); }
  Eigen::Index getNumNLPCosts() const override { return 0; }
  Eigen::Index getNumQPVars() const override { return A.cols(); }
  Eigen::Index getNumQPConstraints() const override { return A.rows(); }
  const std::vector<std::string>& getNLPConstraintNames() const override { return names; }
  const std::vector<std::string>& getNLPCostNames() const override { return names; }
  const Eigen::VectorXd& getBoxSize() const override { return box; }
  const Eigen::VectorXd& getConstraintMeritCoeff() const override { return merit; }
  const trajopt_ifopt::Jacobian& getHessian() const override { return H; }
  const Eigen::VectorXd& getGradient() const override { return q; }
  const trajopt_ifopt::Jacobian& getConstraintMatrix() const override { return A; }
  const Eigen::VectorXd& getBoundsLower() const override { return l; }
  const Eigen::VectorXd& getBoundsUpper() const override { return u; }
};

struct Qp
{
  int n{ 0 }, m{ 0 };
  Eigen::MatrixXd H, A;
  Eigen::VectorXd q, l, u;
};
trajopt_ifopt::Jacobian sparse(const Eigen::MatrixXd& d, unsigned pattern)
{
  trajopt_ifopt::Jacobian j(d.rows(), d.cols());
  for (Eigen::Index r = 0; r < d.rows(); ++r)
    for (Eigen::Index c = 0; c < d.cols(); ++c)
      if ((pattern >> (r * d.cols() + c)) & 1U)
        j.insert(r, c) = d(r, c);
  j.makeCompressed();
  return j;
}
Eigen::MatrixXd mat(const std::string& name, int r, int c, unsigned pattern)
{
  Eigen::MatrixXd d = Eigen::MatrixXd::Zero(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      if ((pattern >> (i * c + j)) & 1U)
        d(i, j) = sym::real(name + std::to_string(i) + std::to_string(j));
  return d;
}
struct World
{
  OSQPEigenSolver s;
  Qp qp;
  World()
  {
    O::init_ok = true;
    O::update_fails = -1;
    O::update_count = 0;
    O::exit_flag = OsqpEigen::ErrorExitFlag::NoError;
    O::status = OsqpEigen::Status::Solved;
    O::solves = O::inits = 0;
    O::answer.resize(0);
  }
  void init(int n, int m)
  {
    qp = Qp();
    qp.n = n;
    qp.m = m;
    sym::check(s.init(n, m), "init-accepted");
    sym::check(s.getSolverStatus() == QPSolverStatus::kInitialized, "init-status");
  }
  bool hessian(unsigned pat)
  {
    const Eigen::MatrixXd H = mat("H", qp.n, qp.n, pat);
    if (!s.updateHessianMatrix(sparse(H, pat)))
      return false;
    qp.H = H;
    return true;
  }
  bool gradient(bool any = true)  // any: including the entries small enough to be dropped
  {
    const Eigen::VectorXd q = any ? hu::vec("q", qp.n) : hu::vec_in("q", qp.n, 1, 100);
    if (!s.updateGradient(q))
      return false;
    qp.q = q;
    return true;
  }
  bool matrix(unsigned pat)
  {
    const Eigen::MatrixXd A = mat("A", qp.m, qp.n, pat);
    if (!s.updateLinearConstraintsMatrix(sparse(A, pat)))
      return false;
    qp.A = A;
    return true;
  }
  void bound(Eigen::VectorXd& l, Eigen::VectorXd& u, bool any)
  {
    l.resize(qp.m);
    u.resize(qp.m);
    for (int i = 0; i < qp.m; ++i)
    {
      // a row may be unbounded on either side: represented by infinity or by any huge number
      const int k = i == 0 && any ? sym::choose("bound-kind", 4) : 0;
      const double w = i == 0 && any ? 1e31 : 1e20;
      l(i) = k == 1 ? -hu::INF : sym::real_in("l" + std::to_string(i), -w, w);
      u(i) = k == 2 ? hu::INF : sym::real_in("u" + std::to_string(i), -w, w);
      if (k == 3)
        u(i) = l(i);
      if (k != 1 && k != 2)
        sym::assume_le(l(i), u(i));
    }
  }
  bool bounds(bool any = true)
  {
    Eigen::VectorXd l, u;
    bound(l, u, any);
    if (!s.updateBounds(l, u))
      return false;
    qp.l = l;
    qp.u = u;
    return true;
  }
  bool lower()
  {
    Eigen::VectorXd l = hu::vec_in("lo", qp.m, -1e20, 1e20);
    if (!s.updateLowerBound(l))
      return false;
    qp.l = l;
    return true;
  }
  bool upper()
  {
    Eigen::VectorXd u = hu::vec_in("up", qp.m, -1e20, 1e20);
    if (!s.updateUpperBound(u))
      return false;
    qp.u = u;
    return true;
  }
  void compare() const
  {
    const OsqpEigen::Problem& p = O::solved;
    sym::check(p.P.rows() == qp.n && p.P.cols() == qp.n && p.A.rows() == qp.m && p.A.cols() == qp.n &&
                   p.q.size() == qp.n && p.l.size() == qp.m && p.u.size() == qp.m,
               "solved-dimensions");
    for (int i = 0; i < qp.n; ++i)
    {
      // the solver minimises 1/2 x'Px + q'x
      sym::check_near(p.q(i), qp.q(i), 1e-7, "solved-gradient");
      for (int j = 0; j < qp.n; ++j)
        sym::check_eq(p.P(i, j), 2 * qp.H(i, j), "solved-hessian");
    }
    for (int r = 0; r < qp.m; ++r)
    {
      for (int j = 0; j < qp.n; ++j)
        sym::check_eq(p.A(r, j), qp.A(r, j), "solved-matrix");
      const double l = qp.l(r), u = qp.u(r);
      if (l < -OSQP_INFTY)
        sym::check_le(p.l(r), -OSQP_INFTY, "solved-lower");
      else
        sym::check_eq(p.l(r), l, "solved-lower");
      if (u > OSQP_INFTY)
        sym::check_le(OSQP_INFTY, p.u(r), "solved-upper");
      else
        sym::check_eq(p.u(r), u, "solved-upper");
    }
  }
};
}  // namespace

// set up, solve, change any part, solve again, start over with another size
SYM_HARNESS(history)
{
  World w;
  sym::check(w.s.getSolverStatus() == QPSolverStatus::kUninitialized, "status-before-init");
  w.init(2, 2);
  const unsigned hp = sym::choose("diagonal", 2) ? 9U : 15U;
  sym::check(w.hessian(hp) && w.gradient(false) && w.matrix(15U) && w.bounds(false), "first-problem-accepted");
  O::answer = hu::vec("ans", 2);
  sym::check(w.s.solve(), "first-solve");
  sym::check(O::solves == 1, "one-solve");
  w.compare();
  Eigen::VectorXd sol = w.s.getSolution();
  sym::check(sol.size() == 2, "solution-size");
  for (int i = 0; i < 2; ++i)
    sym::check_eq(sol(i), O::answer(i), "solution-values");

  const int again = sym::thorough() ? 3 : 2;
  for (int k = 0; k < again; ++k)
  {
    // each step replaces one part of the problem in place (as the trust-region loop does), possibly refused
    const bool refuse = k == 0 && sym::flag("refuse");
    if (refuse)
      O::update_fails = O::update_count;
    bool ok = true;
    switch (sym::choose("edit", 6))
    {
      case 0: ok = w.hessian(sym::choose("pattern", 2) ? 15U : 1U); break;
      case 1: ok = w.gradient(k + 1 == again); break;
      case 2: ok = w.matrix(sym::choose("pattern", 2) ? 15U : 6U); break;
      case 3: ok = w.bounds(k + 1 == again); break;
      case 4: ok = w.lower(); break;
      default: ok = w.upper(); break;
    }
    sym::check(ok == !refuse, "update-result");
    sym::check(w.s.solve(), "solve-again");
    w.compare();
  }
  sym::check(O::solves == 1 + again, "solves-counted");
  // another problem
  sym::check(w.s.clear(), "clear");
  sym::check(w.s.getSolverStatus() == QPSolverStatus::kUninitialized, "status-after-clear");
  w.init(1, 2);
  sym::check(w.hessian(1U) && w.gradient(false) && w.matrix(3U) && w.bounds(false), "second-problem-accepted");
  sym::check(w.s.solve(), "second-solve");
  w.compare();
  sym::cover("done");
}

// before the first solve the parts may be given several times and in any order; the last ones count
SYM_HARNESS(assemble)
{
  World w;
  w.init(2, 1);
  sym::check(w.hessian(15U) && w.gradient(false) && w.matrix(3U) && w.bounds(false), "first-parts");
  bool ok = true;
  const int n = sym::thorough() ? 4 : 3;
  for (int k = 0; k < n; ++k)
    switch (sym::choose("again", 4))
    {
      case 0: ok = ok && w.hessian(sym::choose("pattern", 2) ? 15U : 1U); break;
      case 1: ok = w.gradient(k + 1 == n) && ok; break;
      case 2: ok = ok && w.matrix(sym::choose("pattern", 2) ? 3U : 2U); break;
      default: ok = w.bounds(k + 1 == n) && ok; break;
    }
  sym::check(ok, "parts-again");
  sym::check(w.s.solve(), "solve");
  w.compare();
  sym::cover("done");
}

// a wrong answer is never reported as a success
SYM_HARNESS(outcomes)
{
  World w;
  w.init(1, 1);
  sym::check(w.hessian(1U) && w.gradient(false) && w.matrix(1U) && w.bounds(false), "parts");
  O::answer = hu::vec("ans", 1);
  const int rounds = 2;
  for (int k = 0; k < rounds; ++k)
  {
    O::init_ok = !(k == 0 && sym::flag("init-fails"));
    O::exit_flag = sym::flag("exit-error") ? OsqpEigen::ErrorExitFlag::NonCvxError : OsqpEigen::ErrorExitFlag::NoError;
    const int st = 1 + sym::choose("status", 11);
    O::status = static_cast<OsqpEigen::Status>(st);
    const int before = O::solves;
    const bool good = O::init_ok && O::exit_flag == OsqpEigen::ErrorExitFlag::NoError &&
                      (O::status == OsqpEigen::Status::Solved || O::status == OsqpEigen::Status::SolvedInaccurate);
    const bool r = w.s.solve();
    sym::check(r == good, "solve-reports-outcome");
    sym::check(O::solves == before + (O::init_ok ? 1 : 0), "solves-only-when-set-up");
    if (!good)
      sym::check(w.s.getSolverStatus() == QPSolverStatus::kFailed, "failure-status");
    else if (k == 0)
      sym::check(w.s.getSolverStatus() == QPSolverStatus::kInitialized, "success-status");
    if (good)
      w.compare();
  }
  sym::cover("done");
}

// the warm start handed to OSQP begins at the problem's variables and has the solver's dimensions
SYM_HARNESS(warm_start)
{
  World w;
  const bool enabled = sym::flag("enabled");
  w.s.solver_->settings()->setWarmStart(enabled);
  Problem p;
  p.nlp = 1 + sym::choose("nlp", 2);
  const int slacks = sym::choose("slacks", 2);
  const int n = static_cast<int>(p.nlp) + slacks;
  w.init(n, 2);
  sym::check(w.hessian(511U) && w.gradient(false) && w.matrix(63U) && w.bounds(false), "parts");
  p.A = sparse(w.qp.A, 63U);
  p.x = hu::vec("x", p.nlp);
  p.viol = hu::vec("v", 1);
  O::x0.resize(0);
  O::y0.resize(0);
  sym::check(w.s.setWarmStart(p), "warm-start-accepted");
  sym::check(w.s.solve(), "solve");
  w.compare();
  if (enabled)
  {
    sym::check(O::x0.size() == n && O::y0.size() == 2, "warm-start-size");
    for (Eigen::Index i = 0; i < p.nlp; ++i)
      sym::check_eq(O::x0(i), p.x(i), "warm-start-values");
    for (Eigen::Index i = p.nlp; i < n; ++i)
      sym::check_le(0.0, O::x0(i), "warm-start-slack");
    for (int i = 0; i < 2; ++i)
      sym::check_eq(O::y0(i), 0.0, "warm-start-duals");
  }
  else
    sym::check(O::x0.size() == 0, "warm-start-off");
  sym::cover("done");
}
