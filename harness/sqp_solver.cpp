// The trust-region SQP solver against an arbitrary problem and an arbitrary QP solver.
// Points are opaque ids (the start is 100, the k-th QP solution is k); costs, violations and their models at
// every point are symbolic, as are QP failures, callback answers, sparsity changes and dimension changes.
// @unit trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/types.cpp
#include "util.h"
#include <chrono>
#include <map>
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/types.h>
using namespace trajopt_sqp;

static long g_clock_ms = 0;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
  return std::chrono::steady_clock::time_point(std::chrono::milliseconds(g_clock_ms));
}

namespace
{
constexpr double START = 100;
struct Opts
{
  int ncost{ 2 }, ncnt{ 2 };
  bool fails{ false }, stops{ false }, rebuild{ false };
  bool verbose{ false };
  bool models{ true };  // symbolic model values; otherwise the model always promises a large improvement
};

struct World;
struct Problem : QPProblem
{
  World& w;
  Eigen::VectorXd x{ Eigen::VectorXd::Constant(1, START) };
  Eigen::VectorXd box{ Eigen::VectorXd::Zero(1) }, merit, q, l, u;
  trajopt_ifopt::Jacobian H, A;
  Eigen::Index extra{ 0 };
  int convexified{ 0 };
  std::vector<std::string> cnames, knames;
  explicit Problem(World& w_);

  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* v) override { x = Eigen::VectorXd::Constant(1, v[0]); }
  Eigen::VectorXd getVariableValues() const override { return x; }
  void bounds()
  {
    l = Eigen::VectorXd::Constant(1 + extra, x(0) - box(0));
    u = Eigen::VectorXd::Constant(1 + extra, x(0) + box(0));
  }
  void convexify() override;
  double evaluateTotalConvexCost(const Eigen::Ref<const Eigen::VectorXd>& v) const override { return evaluateConvexCosts(v).sum(); }
  Eigen::VectorXd evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& v) const override;
  double getTotalExactCost() const override { return getExactCosts().sum(); }
  Eigen::VectorXd getExactCosts() const override;
  Eigen::VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const Eigen::VectorXd>& v) const override;
  Eigen::VectorXd getExactConstraintViolations() const override;
  void scaleBoxSize(double& s) override
  {
    box *= s;
    bounds();
  }
  void setBoxSize(const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    box = b;
    bounds();
  }
  void setConstraintMeritCoeff(const Eigen::Ref<const Eigen::VectorXd>& m) override { merit = m; }
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return 1; }
  Eigen::Index getNumNLPConstraints() const override;
  Eigen::Index getNumNLPCosts() const override;
  Eigen::Index getNumQPVars() const override { return 1 + extra; }
  Eigen::Index getNumQPConstraints() const override { return 1 + extra; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return knames; }
  const std::vector<std::string>& getNLPCostNames() const override { return cnames; }
  const Eigen::VectorXd& getBoxSize() const override { return box; }
  const Eigen::VectorXd& getConstraintMeritCoeff() const override { return merit; }
  const trajopt_ifopt::Jacobian& getHessian() const override { return H; }
  const Eigen::VectorXd& getGradient() const override { return q; }
  const trajopt_ifopt::Jacobian& getConstraintMatrix() const override { return A; }
  const Eigen::VectorXd& getBoundsLower() const override { return l; }
  const Eigen::VectorXd& getBoundsUpper() const override { return u; }
};

struct Solver : QPSolver
{
  World& w;
  bool ready{ false };
  Eigen::Index nv{ -1 }, nc{ -1 };
  double H{ -1 }, q{ -1 }, A{ -1 }, l{ -1 }, u{ -1 };
  bool fresh{ false };
  explicit Solver(World& w_) : w(w_) {}
  bool init(Eigen::Index v, Eigen::Index c) override
  {
    sym::check(!ready, "qp-solver-cleared-before-init");
    nv = v;
    nc = c;
    ready = fresh = true;
    H = q = A = l = u = -1;
    return true;
  }
  bool clear() override
  {
    ready = false;
    nv = nc = -1;
    return true;
  }
  bool accept(const char* what);
  /** A QP solver is only given data of the size it was initialised with (OSQP asserts on anything else). */
  void shape(bool fits) const
  {
    sym::check(ready && fits, "upload-fits-solver");
    if (!ready || !fits)
      sym::stop();
  }
  bool updateHessianMatrix(const trajopt_ifopt::Jacobian& h) override
  {
    shape(h.rows() == nv && h.cols() == nv);
    if (!accept("hessian"))
      return false;
    H = h.coeff(0, 0);
    return true;
  }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& g) override
  {
    shape(g.size() == nv);
    if (!accept("gradient"))
      return false;
    q = g(0);
    return true;
  }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    shape(b.size() == nc);
    l = b(0);
    return true;
  }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    shape(b.size() == nc);
    u = b(0);
    return true;
  }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& a, const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    return updateLowerBound(a) && updateUpperBound(b);
  }
  bool updateLinearConstraintsMatrix(const trajopt_ifopt::Jacobian& a) override
  {
    shape(a.rows() == nc && a.cols() == nv);
    if (!accept("matrix"))
      return false;
    A = a.coeff(0, 0);
    fresh = false;
    return true;
  }
  bool setWarmStart(const QPProblem&) override { return true; }
  QPSolverStatus getSolverStatus() const override { return ready ? QPSolverStatus::kInitialized : QPSolverStatus::kUninitialized; }
  bool solve() override;
  Eigen::VectorXd getSolution() override;
};

struct Values
{
  Eigen::VectorXd c, k;
};

struct World
{
  Opts o;
  TrustRegionSQPSolver* sqp{ nullptr };
  std::shared_ptr<Problem> p;
  SQPParameters prm;
  std::map<double, Values> exact;
  std::map<std::pair<int, double>, Values> model;
  int solves{ 0 };
  // the reference: what the documented algorithm has decided so far
  double best{ START };
  int best_conv{ 0 };  // the linearisation whose model proposed the best point, 0 for the start
  double box{ 0 };
  Eigen::VectorXd merit;
  double accepted_value{ 0 };  // what the model promised for the best point when it was accepted
  int failures{ 0 };   // since the last linearisation
  bool stopped{ false }, aborted{ false };
  bool pending{ false };  // a solve whose outcome has not been judged yet
  bool pend_ok{ false };
  bool inner_done{ false };  // the linearise/solve loop of this penalty round has ended
  int rounds{ 0 };           // penalty increases so far
  const Values& at(double id)
  {
    auto it = exact.find(id);
    if (it == exact.end())
    {
      Values v;
      const std::string n = std::to_string(static_cast<int>(id));
      v.c = hu::vec_in("cost" + n + "_", o.ncost, -100, 100);
      v.k = hu::vec_in("viol" + n + "_", o.ncnt, 0, 100);
      it = exact.emplace(id, v).first;
    }
    return it->second;
  }
  const Values& model_at(int conv, double id)
  {
    auto it = model.find({ conv, id });
    if (it == model.end())
    {
      Values v;
      const std::string n = std::to_string(static_cast<int>(id));
      if (o.models)
      {
        v.c = hu::vec_in("mcost" + n + "_", o.ncost, -100, 100);
        v.k = hu::vec_in("mviol" + n + "_", o.ncnt, 0, 100);
      }
      else
      {
        v.c = Eigen::VectorXd::Constant(o.ncost, -1e7);
        v.k = Eigen::VectorXd::Zero(o.ncnt);
      }
      it = model.emplace(std::make_pair(conv, id), v).first;
    }
    return it->second;
  }
  double value(const Values& v) const
  {
    double s = 0;
    for (Eigen::Index i = 0; i < v.c.size(); ++i)
      s += v.c(i);
    for (Eigen::Index i = 0; i < v.k.size(); ++i)
      s += v.k(i) * merit(i);
    return s;
  }
  bool feasible(double id)
  {
    const Values& v = at(id);
    for (Eigen::Index i = 0; i < v.k.size(); ++i)
      if (!(v.k(i) < prm.cnt_tolerance))
        return false;
    return true;
  }
  /** The documented reaction to the last QP solve. */
  void judge()
  {
    if (!pending)
      return;
    pending = false;
    if (!pend_ok)
    {
      ++failures;
      if (failures < prm.max_qp_solver_failures)
        box *= prm.trust_shrink_ratio;
      else if (failures == prm.max_qp_solver_failures)
        box = prm.min_trust_box_size;
      else
        aborted = true;
      if (box < prm.min_trust_box_size)
        inner_done = true;
      return;
    }
    const double now = value(at(best)), promised = now - value(model_at(p->convexified, solves)), got = now - value(at(solves));
    if (promised < prm.min_approx_improve)
    {
      inner_done = true;
      return;
    }
    const double scale = hu::absv(now) < 1e-12 ? 1e-12 : hu::absv(now);
    if (prm.min_approx_improve_frac > -1 && promised < prm.min_approx_improve_frac * scale)
    {
      inner_done = true;
      return;
    }
    if (got < 0 || got < prm.improve_ratio_threshold * promised)
    {
      sym::cover("rejected");
      box *= prm.trust_shrink_ratio;
      inner_done = box < prm.min_trust_box_size;
      return;
    }
    sym::cover("accepted");
    best = solves;
    best_conv = p->convexified;
    accepted_value = value(model_at(best_conv, best));
    box *= prm.trust_expand_ratio;
  }
  /** The results report the model's values of the step that produced the best point. */
  void check_model(const SQPResults& r)
  {
    if (best_conv == 0)
      return;
    const Values& m = model_at(best_conv, best);
    for (int i = 0; i < o.ncost; ++i)
      sym::check_eq(r.best_approx_costs(i), m.c(i), "best-model-costs");
    for (int i = 0; i < o.ncnt; ++i)
      sym::check_eq(r.best_approx_constraint_violations(i), m.k(i), "best-model-violations");
    sym::check_eq(r.best_approx_merit, accepted_value, "best-model-merit");
  }
  /** A penalty increase is due when the linearise/solve loop has ended at a point that violates a constraint. */
  void penalty()
  {
    if (!inner_done)
      return;
    inner_done = false;
    ++rounds;
    sym::cover("penalty");
    const Values& v = at(best);
    for (Eigen::Index i = 0; i < v.k.size(); ++i)
      if (!prm.inflate_constraints_individually || v.k(i) > prm.cnt_tolerance)
        merit(i) *= prm.merit_coeff_increase_ratio;
    const double least = prm.min_trust_box_size / prm.trust_shrink_ratio * 1.5;
    if (box < least)
      box = least;
  }
};

Problem::Problem(World& w_) : w(w_), cnames(static_cast<std::size_t>(w_.o.ncost), "c"), knames(static_cast<std::size_t>(w_.o.ncnt), "k") {}
Eigen::Index Problem::getNumNLPConstraints() const { return w.o.ncnt; }
Eigen::Index Problem::getNumNLPCosts() const { return w.o.ncost; }
double stamp(const Eigen::VectorXd& m)
{
  double s = 1;
  for (Eigen::Index i = 0; i < m.size(); ++i)
    s += m(i) * (i == 0 ? 1 : 1000);
  return s;
}
void Problem::convexify()
{
  w.judge();
  w.penalty();
  ++convexified;
  w.failures = 0;
  if (w.o.rebuild)
    extra = sym::choose("rows", 2);
  H.resize(1 + extra, 1 + extra);
  A.resize(1 + extra, 1 + extra);
  H.coeffRef(0, 0) = A.coeffRef(0, 0) = x(0) + 1;  // what was linearised where
  q = Eigen::VectorXd::Constant(1 + extra, stamp(merit));
  bounds();
}
Eigen::VectorXd Problem::getExactCosts() const { return w.at(x(0)).c; }
Eigen::VectorXd Problem::getExactConstraintViolations() const { return w.at(x(0)).k; }
Eigen::VectorXd Problem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& v) const { return w.model_at(convexified, v(0)).c; }
Eigen::VectorXd Problem::evaluateConvexConstraintViolations(const Eigen::Ref<const Eigen::VectorXd>& v) const
{
  return w.model_at(convexified, v(0)).k;
}
bool Solver::accept(const char* what) { return fresh || !w.o.rebuild || !sym::flag(std::string("pattern_") + what); }
bool Solver::solve()
{
  w.judge();
  sym::check(!w.stopped, "callback-stops");
  sym::check(!w.aborted, "failures-abort");
  sym::check(!w.inner_done, "loop-ended");
  ++w.solves;
  g_clock_ms += 1000;
  sym::check(w.solves <= w.prm.max_iterations, "max-iterations");
  // the solver holds the subproblem of the best point with the current box and penalties
  bool ok = ready && H == w.best + 1 && A == w.best + 1 && q == stamp(w.merit) && nv == w.p->getNumQPVars() && nc == w.p->getNumQPConstraints();
  sym::check(ok, "subproblem-uploaded");
  if (!ok || w.stopped || w.aborted || w.inner_done || w.solves > w.prm.max_iterations)
    sym::stop();
  sym::check_near(l, w.best - w.box, 1e-9, "trust-box");
  sym::check_near(u, w.best + w.box, 1e-9, "trust-box");
  sym::check(w.p->x(0) == w.best, "linearised-at-best");
  w.pending = true;
  w.pend_ok = !(w.o.fails && sym::flag("qp_fails"));
  return w.pend_ok;
}
Eigen::VectorXd Solver::getSolution() { return Eigen::VectorXd::Constant(1, w.solves); }

struct Callback : SQPCallback
{
  World& w;
  explicit Callback(World& w_) : w(w_) {}
  bool execute(const QPProblem& problem, const SQPResults& r) override
  {
    const Values &b = w.at(w.best), &n = w.at(w.solves), &m = w.model_at(w.p->convexified, w.solves);
    sym::check(&problem == w.p.get() && w.p->x(0) == w.best, "callback-problem-at-best");
    sym::check(r.best_var_vals.size() == 1 && r.best_var_vals(0) == w.best && r.new_var_vals(0) == w.solves, "callback-points");
    sym::check(r.overall_iteration == w.solves && r.penalty_iteration == w.rounds, "callback-iterations");
    for (int i = 0; i < w.o.ncost; ++i)
    {
      sym::check_eq(r.best_costs(i), b.c(i), "callback-best-costs");
      sym::check_eq(r.new_costs(i), n.c(i), "callback-new-costs");
      sym::check_eq(r.new_approx_costs(i), m.c(i), "callback-model-costs");
    }
    for (int i = 0; i < w.o.ncnt; ++i)
    {
      sym::check_eq(r.best_constraint_violations(i), b.k(i), "callback-best-violations");
      sym::check_eq(r.new_constraint_violations(i), n.k(i), "callback-new-violations");
      sym::check_eq(r.new_approx_constraint_violations(i), m.k(i), "callback-model-violations");
      sym::check_eq(r.merit_error_coeffs(i), w.merit(i), "callback-merit");
    }
    w.check_model(r);
    sym::check_eq(r.best_exact_merit, w.value(b), "callback-best-merit");
    sym::check_eq(r.new_exact_merit, w.value(n), "callback-new-merit");
    sym::check_eq(r.new_approx_merit, w.value(m), "callback-model-merit");
    sym::check_eq(r.exact_merit_improve, w.value(b) - w.value(n), "callback-improvement");
    sym::check_eq(r.approx_merit_improve, w.value(b) - w.value(m), "callback-improvement");
    sym::check_near(r.box_size(0), w.box, 1e-9, "callback-box");
    if (w.o.stops && sym::flag("callback_stops"))
    {
      w.stopped = true;
      w.pending = false;
      sym::cover("stopped");
      return false;
    }
    return true;
  }
};

void run(Opts o, SQPParameters prm)
{
  g_clock_ms = 0;
  if (!o.models)
    prm.improve_ratio_threshold = 0;
  World w;
  w.o = o;
  w.prm = prm;
  w.box = prm.initial_trust_box_size;
  w.merit = Eigen::VectorXd::Constant(o.ncnt, prm.initial_merit_error_coeff);
  w.p = std::make_shared<Problem>(w);
  auto qp = std::make_shared<Solver>(w);
  TrustRegionSQPSolver sqp(qp);
  w.sqp = &sqp;
  sqp.params = prm;
  sqp.verbose = o.verbose;
  if (o.stops)
    sqp.registerCallback(std::make_shared<Callback>(w));
  sqp.registerCallback(std::make_shared<Callback>(w));
  sqp.solve(w.p);
  w.judge();
  const SQPResults& r = sqp.getResults();
  const SQPStatus s = sqp.getStatus();
  sym::check(w.p->x(0) == w.best, "returns-best");
  sym::check(r.best_var_vals(0) == w.best, "results-best");
  const Values& b = w.at(w.best);
  for (int i = 0; i < o.ncost; ++i)
    sym::check_eq(r.best_costs(i), b.c(i), "results-best-costs");
  for (int i = 0; i < o.ncnt; ++i)
    sym::check_eq(r.best_constraint_violations(i), b.k(i), "results-best-violations");
  w.check_model(r);
  sym::check(s != SQPStatus::kRunning, "status-final");
  if (o.verbose)
  {
    r.print();
    sym::check(trajopt_sqp::toString(s).size() > 4, "status-text");
  }
  if (w.stopped)
    sym::check(s == SQPStatus::kStoppedByCallback, "status-callback");
  else if (w.aborted)
    sym::check(s == SQPStatus::kQPSolveFailed, "status-failed");
  else
    sym::check(s != SQPStatus::kStoppedByCallback && s != SQPStatus::kQPSolveFailed, "status-not-failed");
  if (s == SQPStatus::kConverged)
  {
    sym::cover("converged");
    sym::check(w.feasible(w.best), "converged-means-feasible");
  }
  const double elapsed = static_cast<double>(g_clock_ms) / 1000.0;
  if (s == SQPStatus::kTimeLimit)
  {
    sym::cover("time");
    sym::check(elapsed > prm.max_time, "status-time");
  }
  if (s == SQPStatus::kIterationLimit)
  {
    sym::cover("iterations");
    sym::check(w.solves == prm.max_iterations, "status-iterations");
  }
  if (s == SQPStatus::kPenaltyIterationLimit)
  {
    sym::cover("penalties");
    sym::check(w.rounds + 1 == prm.max_merit_coeff_increases && !w.feasible(w.best), "status-penalty");
  }
  if (s == SQPStatus::kIterationLimit || s == SQPStatus::kTimeLimit)
    sym::check(!w.feasible(w.best), "feasible-means-converged");
}

SQPParameters params()
{
  SQPParameters p;
  p.initial_trust_box_size = 1;
  p.min_trust_box_size = 0.05;
  p.trust_shrink_ratio = 0.1;
  p.trust_expand_ratio = 1.5;
  p.max_iterations = sym::thorough() ? 4 : 3;
  p.max_merit_coeff_increases = 2;
  p.inflate_constraints_individually = true;
  return p;
}
}  // namespace

SYM_HARNESS(steps)
{
  sym::bound("1 cost, 0 or 1 constraint, 3 QP solves (4 thorough), 2 penalty rounds; all values of costs, violations and their models");
  for (const char* c : { "accepted", "rejected", "penalty", "converged", "iterations" })
    sym::require_cover(c);
  Opts o;
  SQPParameters p = params();
  o.ncost = 1;
  o.ncnt = sym::choose("constraints", 2);
  run(o, p);
}

SYM_HARNESS(fraction)
{
  sym::bound("1 cost, 1 constraint, 2 QP solves (3 thorough), relative convergence limit 0.01; all values");
  sym::require_cover("converged");
  Opts o;
  SQPParameters p = params();
  o.ncost = o.ncnt = 1;
  p.max_iterations = sym::thorough() ? 3 : 2;
  p.min_approx_improve_frac = 0.01;
  run(o, p);
}

SYM_HARNESS(penalties)
{
  sym::bound("2 costs, 2 constraints, 3 QP solves (4 thorough), 3 penalty rounds, individual or uniform increase; all values of costs and violations");
  sym::require_cover("penalty");
  Opts o;
  SQPParameters p = params();
  o.models = false;
  p.max_iterations = sym::thorough() ? 4 : 3;
  p.max_merit_coeff_increases = 3;
  p.min_trust_box_size = 0.5;
  p.initial_trust_box_size = sym::flag("large") ? 4 : 0.5;
  p.inflate_constraints_individually = sym::flag("individually");
  run(o, p);
}

SYM_HARNESS(failures)
{
  sym::bound("1 cost, 1 constraint, every pattern of QP failures and callback answers over 4 QP solves; 2 callbacks");
  for (const char* c : { "stopped", "accepted", "rejected" })
    sym::require_cover(c);
  Opts o;
  o.ncost = o.ncnt = 1;
  o.fails = o.stops = true;
  o.models = false;
  SQPParameters p = params();
  p.max_iterations = sym::thorough() ? 6 : 4;
  p.max_qp_solver_failures = sym::choose("max_failures", 3);
  p.min_trust_box_size = 0.0005;
  p.max_merit_coeff_increases = 3;
  run(o, p);
}

SYM_HARNESS(limits)
{
  sym::bound("1 cost, 2 constraints, up to 3 QP solves of 1 s each, every time, iteration and penalty limit within");
  for (const char* c : { "time", "iterations", "penalties", "converged" })
    sym::require_cover(c);
  Opts o;
  o.ncost = 1;
  o.ncnt = 2;
  o.models = false;
  SQPParameters p = params();
  p.max_iterations = sym::choose("max_iterations", 4);
  p.max_time = std::vector<double>{ 0.5, 1.5, 2.5, 1e9 }[static_cast<std::size_t>(sym::choose("max_time", 4))];
  p.max_merit_coeff_increases = 1 + sym::choose("rounds", 3);
  run(o, p);
}

SYM_HARNESS(upload)
{
  sym::bound("1 cost, 1 constraint, 3 QP solves; each upload may be refused, the dimensions may change at each linearisation");
  Opts o;
  o.ncost = o.ncnt = 1;
  o.models = false;
  o.rebuild = true;
  SQPParameters p = params();
  p.max_iterations = 3;
  run(o, p);
}

SYM_HARNESS(verbose)
{
  sym::bound("0 or 1 costs and constraints, 1 QP solve, 1 penalty round, step tables and results printed; all values");
  sym::require_cover("accepted");
  Opts o;
  o.verbose = true;
  o.ncost = sym::choose("costs", 2);
  o.ncnt = sym::choose("constraints", 2);
  SQPParameters p = params();
  p.max_iterations = sym::thorough() ? 2 : 1;
  run(o, p);
}
