// The trust-region SQP of trajopt_sco (BasicTrustRegionSQP) against arbitrary costs and constraints and an arbitrary QP solver.
// Points are opaque ids (the start is 50, the k-th QP solution is k): costs, violations and the model at each linearisation are
// symbolic there, as are QP failures and the time.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/optimizers.cpp
// @flag -DHAVE_BPMPD
#include "sco_model.h"
#include <chrono>
#include <limits>
#include <map>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/optimizers.hpp>
using namespace sco;

static long g_clock_ms = 0;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
  g_clock_ms += 1;
  return std::chrono::system_clock::time_point(std::chrono::milliseconds(g_clock_ms));
}
static std::shared_ptr<hs::Mock> g_model;
namespace sco
{
Model::Ptr createBPMPDModel()
{
  g_model = std::make_shared<hs::Mock>();
  return g_model;
}
}  // namespace sco

namespace
{
constexpr double START = 50;
struct Opts
{
  int ncost{ 1 }, neq{ 0 }, nineq{ 1 }, solves{ 3 };
  bool fails{ false };
  bool models{ true };   // symbolic models; otherwise the model promises a large improvement and no violation
  bool objective{ false };  // compare the subproblem with the reference (for every feasible choice of auxiliary variables)
};
double pos_part(double v) { return v > 0 ? v : 0; }

struct World
{
  Opts o;
  BasicTrustRegionSQPParameters prm;
  std::shared_ptr<OptProb> prob;
  std::map<double, DblVec> exact_c, exact_k;
  // per linearisation: model of every term, constant + slope * x
  std::vector<std::vector<std::pair<double, double>>> lin_c, lin_k;
  int solves{ 0 }, solved{ 0 }, iteration{ 0 }, calls{ 0 };
  double best{ START };
  double box{ 0 };
  DblVec merit;
  int failures{ 0 }, rounds{ 0 };
  bool pending{ false }, pend_ok{ false };
  bool subloop_done{ false }, accepted{ false }, done{ false };
  OptStatus expect{ INVALID };

  int ncnt() const { return o.neq + o.nineq; }
  double viol(int i, double raw) const { return i < o.neq ? hu::absv(raw) : pos_part(raw); }
  const DblVec& c_at(double id) { return at(exact_c, id, "cost", o.ncost, 0.01); }
  const DblVec& k_at(double id) { return at(exact_k, id, "cnt", ncnt(), -100); }
  static const DblVec& at(std::map<double, DblVec>& m, double id, const std::string& what, int n, double least)
  {
    auto it = m.find(id);
    if (it == m.end())
    {
      DblVec v;
      for (int i = 0; i < n; ++i)
        v.push_back(sym::real_in(what + std::to_string(i) + "@" + std::to_string(static_cast<int>(id)), least, 100));
      it = m.emplace(id, v).first;
    }
    return it->second;
  }
  std::pair<double, double> fresh(const std::string& n, bool cost)
  {
    if (!o.models)
      return { cost ? -1e7 : 0, 0 };
    return { sym::real_in(n + "_const", -100, 100), sym::real_in(n + "_slope", -10, 10) };
  }
  double now_merit(double id)
  {
    double s = 0;
    for (double v : c_at(id))
      s += v;
    for (int i = 0; i < ncnt(); ++i)
      s += merit[static_cast<std::size_t>(i)] * viol(i, k_at(id)[static_cast<std::size_t>(i)]);
    return s;
  }
  double model_merit(double id)
  {
    double s = 0;
    for (const auto& l : lin_c.back())
      s += l.first + l.second * id;
    for (int i = 0; i < ncnt(); ++i)
    {
      const auto& l = lin_k.back()[static_cast<std::size_t>(i)];
      s += merit[static_cast<std::size_t>(i)] * viol(i, l.first + l.second * id);
    }
    return s;
  }
  bool feasible(double id)
  {
    for (int i = 0; i < ncnt(); ++i)
      if (!(viol(i, k_at(id)[static_cast<std::size_t>(i)]) < prm.cnt_tolerance))
        return false;
    return true;
  }
  void finish(OptStatus s)
  {
    done = true;
    expect = s;
  }
  /** The documented reaction to the last QP solve. */
  void judge()
  {
    if (!pending)
      return;
    pending = false;
    if (!pend_ok)
    {
      ++failures;
      sym::cover("failed");
      if (failures < prm.max_qp_solver_failures)
        box *= prm.trust_shrink_ratio;
      else if (failures == prm.max_qp_solver_failures)
        box = prm.min_trust_box_size;
      else
        return finish(OPT_FAILED);
      subloop_done = box < prm.min_trust_box_size;
      return round();
    }
    const double now = now_merit(best), promised = now - model_merit(solves), got = now - now_merit(solves);
    if (promised < prm.min_approx_improve || (prm.min_approx_improve_frac > -1 && promised < prm.min_approx_improve_frac * now))
    {
      subloop_done = true;
      return round();
    }
    if (got < 0 || got < prm.improve_ratio_threshold * promised)
    {
      sym::cover("rejected");
      box *= prm.trust_shrink_ratio;
      subloop_done = box < prm.min_trust_box_size;
      return round();
    }
    sym::cover("accepted");
    best = solves;
    box *= prm.trust_expand_ratio;
    accepted = true;
    if (iteration >= prm.max_iter)
      finish(feasible(best) ? OPT_CONVERGED : OPT_SCO_ITERATION_LIMIT);
  }
  /** End of a penalty round. */
  void round()
  {
    if (!subloop_done)
      return;
    if (feasible(best))
      return finish(OPT_CONVERGED);
    sym::cover("penalty");
    for (int i = 0; i < ncnt(); ++i)
      if (!prm.inflate_constraints_individually || viol(i, k_at(best)[static_cast<std::size_t>(i)]) > prm.cnt_tolerance)
        merit[static_cast<std::size_t>(i)] *= prm.merit_coeff_increase_ratio;
    const double least = prm.min_trust_box_size / prm.trust_shrink_ratio * 1.5;
    box = box < least ? least : box;
    if (++rounds >= prm.max_merit_coeff_increases)
      finish(OPT_PENALTY_ITERATION_LIMIT);
  }
  void linearised(double x)
  {
    judge();
    sym::check(!done, "linearised-after-the-end");
    sym::check(x == best, "linearised-at-best");
    sym::check(lin_c.empty() || subloop_done || accepted, "linearised-without-step");
    if (done || x != best)
      sym::stop();
    iteration = (lin_c.empty() || subloop_done) ? 1 : iteration + 1;
    subloop_done = accepted = false;
    failures = 0;
    lin_c.emplace_back();
    lin_k.emplace_back();
    for (int i = 0; i < o.ncost; ++i)
      lin_c.back().push_back(fresh("model" + std::to_string(lin_c.size()) + "_cost" + std::to_string(i), true));
    for (int i = 0; i < ncnt(); ++i)
      lin_k.back().push_back(fresh("model" + std::to_string(lin_c.size()) + "_cnt" + std::to_string(i), false));
    have.assign(static_cast<std::size_t>(o.ncost + ncnt()), false);
  }
  std::vector<bool> have;
  /** each term is linearised once, at the best point, in any order */
  std::pair<double, double> term(int i, double x)
  {
    const std::size_t k = static_cast<std::size_t>(i);
    bool all = true;
    for (bool h : have)
      all = all && h;
    if (all || have.empty())
      linearised(x);
    sym::check(!have[k] && x == best, "linearised-terms");
    have[k] = true;
    return i < o.ncost ? lin_c.back()[k] : lin_k.back()[k - static_cast<std::size_t>(o.ncost)];
  }
  AffExpr expr(int i, double x)
  {
    const auto t = term(i, x);
    AffExpr e(t.first);
    e.vars.push_back(prob->getVars()[0]);
    e.coeffs.push_back(t.second);
    return e;
  }
  /** auxiliary variables at the least cost for the live rows at x = id */
  DblVec aux(double id)
  {
    hs::Mock& m = *g_model;
    DblVec x(m.vs.size(), 0);
    x[0] = id;
    for (const auto& c : m.cs)
      if (!c.removed)
      {
        const double r = hs::val(c.e, x);
        for (std::size_t t = 0; t < c.e.vars.size(); ++t)
        {
          const std::size_t k = c.e.vars[t].var_rep->index;
          if (k == 0)
            continue;
          sym::check(!m.vs[k].removed, "live-row-on-removed-variable");
          sym::check(hu::absv(c.e.coeffs[t]) == 1, "auxiliary-coefficient");
          x[k] = c.e.coeffs[t] < 0 ? pos_part(r) : pos_part(-r);
        }
      }
    return x;
  }
  void subproblem()
  {
    hs::Mock& m = *g_model;
    const DblVec w = aux(solves);
    sym::check(!m.unknown, "removed-twice");
    const double want = model_merit(solves);
    sym::check_eq(hs::val(m.objective, w), want, "objective-reaches-merit");
    for (const auto& c : m.cs)
      if (!c.removed)
      {
        const double r = hs::val(c.e, w);
        if (c.eq)
          sym::check_eq(r, 0, "objective-reaches-merit");
        else
          sym::check_le(r, 0, "objective-reaches-merit");
      }
    DblVec z(m.vs.size(), 0);
    z[0] = solves;
    for (std::size_t k = 1; k < z.size(); ++k)
      if (!m.vs[k].removed)
      {
        z[k] = sym::real_in("aux" + std::to_string(k), -1e6, 1e6);
        if (m.vs[k].lb > -hu::INF)
          sym::assume_le(m.vs[k].lb, z[k]);
        if (m.vs[k].ub < hu::INF)
          sym::assume_le(z[k], m.vs[k].ub);
      }
    for (const auto& c : m.cs)
      if (!c.removed)
      {
        if (c.eq)
          sym::assume_eq(hs::val(c.e, z), 0);
        else
          sym::assume_le(hs::val(c.e, z), 0);
      }
    sym::check_le(want, hs::val(m.objective, z), "objective-below-merit");
  }
  CvxOptStatus solve()
  {
    judge();
    sym::check(!done, "solved-after-the-end");
    sym::check(!lin_c.empty() && !accepted && !subloop_done, "linearised-before-solve");
    bool all = true;
    for (bool h : have)
      all = all && h;
    sym::check(all, "linearised-before-solve");
    if (done || lin_c.empty() || accepted || subloop_done)
      sym::stop();
    ++solves;
    if (solves > o.solves + (sym::thorough() ? 1 : 0))
      sym::stop();
    g_clock_ms += 1000;
    const double lb = prob->getLowerBounds()[0], ub = prob->getUpperBounds()[0];
    const double lo = best - box < lb ? lb : best - box, hi = best + box < ub ? best + box : ub;
    sym::check_near(g_model->vs[0].lb, lo, 1e-9, "trust-box");
    sym::check_near(g_model->vs[0].ub, hi, 1e-9, "trust-box");
    int n = 0;
    for (std::size_t k = 1; k < g_model->vs.size(); ++k)
      n += !g_model->vs[k].removed;
    sym::check(n == 2 * o.neq + o.nineq && g_model->liveCnts() == ncnt(), "old-models-removed");
    pending = true;
    pend_ok = !(o.fails && sym::flag("qp_fails"));
    if (pend_ok)
    {
      ++solved;
      if (o.objective)
        subproblem();
    }
    // a failing solver may stop on any of its codes
    return pend_ok ? CVX_SOLVED : (sym::flag("infeasible") ? CVX_INFEASIBLE : CVX_FAILED);
  }
  void callback(OptProb* p, OptResults& r)
  {
    judge();
    ++calls;
    sym::check(p == prob.get() && r.x.size() == 1 && r.x[0] == best, "callback-point");
    if (r.cost_vals.empty() && r.cnt_viols.empty())
      sym::check(solves == 0, "callback-values-missing");
    else
      values(r, "callback");
    sym::check(r.n_qp_solves == solves, "callback-solves");
  }
  void values(const OptResults& r, const std::string& l)
  {
    sym::check(static_cast<int>(r.cost_vals.size()) == o.ncost && static_cast<int>(r.cnt_viols.size()) == ncnt(), l + "-sizes");
    if (static_cast<int>(r.cost_vals.size()) != o.ncost || static_cast<int>(r.cnt_viols.size()) != ncnt())
      return;
    for (int i = 0; i < o.ncost; ++i)
      sym::check_eq(r.cost_vals[static_cast<std::size_t>(i)], c_at(best)[static_cast<std::size_t>(i)], l + "-costs");
    for (int i = 0; i < ncnt(); ++i)
      sym::check_eq(r.cnt_viols[static_cast<std::size_t>(i)], viol(i, k_at(best)[static_cast<std::size_t>(i)]), l + "-violations");
  }
};
struct TestCost : Cost
{
  World& w;
  int i;
  TestCost(World& w_, int i_) : Cost("c"), w(w_), i(i_) {}
  double value(const DblVec& x) override { return w.c_at(x[0])[static_cast<std::size_t>(i)]; }
  ConvexObjective::Ptr convex(const DblVec& x, Model* m) override
  {
    auto o = std::make_shared<ConvexObjective>(m);
    o->addAffExpr(w.expr(i, x[0]));
    return o;
  }
  VarVector getVars() override { return w.prob->getVars(); }
};
template <class Base>
struct TestCnt : Base
{
  World& w;
  int i;
  TestCnt(World& w_, int i_) : Base("k"), w(w_), i(i_) {}
  DblVec value(const DblVec& x) override { return { w.k_at(x[0])[static_cast<std::size_t>(i)] }; }
  ConvexConstraints::Ptr convex(const DblVec& x, Model* m) override
  {
    auto o = std::make_shared<ConvexConstraints>(m);
    if (this->type() == EQ)
      o->addEqCnt(w.expr(w.o.ncost + i, x[0]));
    else
      o->addIneqCnt(w.expr(w.o.ncost + i, x[0]));
    return o;
  }
  VarVector getVars() override { return w.prob->getVars(); }
};

void run(Opts o, BasicTrustRegionSQPParameters prm, bool threads = false)
{
  g_clock_ms = 0;
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  if (!o.models)
    prm.improve_ratio_threshold = 0;
  World w;
  w.o = o;
  w.prm = prm;
  w.box = prm.trust_box_size;
  w.prob = std::make_shared<OptProb>(ModelType::BPMPD);
  w.prob->createVariables({ "x" }, { -1000 }, { 1000 });
  for (int i = 0; i < o.ncost; ++i)
    w.prob->addCost(std::make_shared<TestCost>(w, i));
  for (int i = 0; i < o.neq + o.nineq; ++i)
  {
    if (i < o.neq)
      w.prob->addConstraint(std::make_shared<TestCnt<EqConstraint>>(w, i));
    else
      w.prob->addConstraint(std::make_shared<TestCnt<IneqConstraint>>(w, i));
  }
  w.merit = DblVec(static_cast<std::size_t>(w.ncnt()), prm.initial_merit_error_coeff);
  g_model->solver = [&] { return w.solve(); };
  g_model->values = [&](const VarVector& v) {
    const DblVec x = w.aux(w.solves);
    DblVec r;
    for (const auto& q : v)
      r.push_back(x[q.var_rep->index]);
    return r;
  };
  std::unique_ptr<BasicTrustRegionSQP> sqp;
  if (threads)
    sqp = std::make_unique<BasicTrustRegionSQPMultiThreaded>(w.prob);
  else
    sqp = std::make_unique<BasicTrustRegionSQP>(w.prob);
  sqp->setParameters(prm);
  sqp->addCallback([&](OptProb* p, OptResults& r) { w.callback(p, r); });
  sqp->initialize({ START });
  const OptStatus s = sqp->optimize();
  w.judge();
  const OptResults& r = sqp->results();
  sym::check(r.x.size() == 1 && r.x[0] == w.best, "returns-best");
  sym::check(r.status == s, "status-in-results");
  sym::check(r.n_qp_solves == w.solves, "counts-solves");
  const bool evaluated = !w.lin_c.empty();
  if (evaluated)
  {
    sym::check(r.n_func_evals == 1 + w.solved, "counts-evaluations");
    w.values(r, "results");
    double total = 0;
    for (double c : w.c_at(w.best))
      total += c;
    sym::check_eq(r.total_cost, total, "total-cost");
  }
  if (w.done)
    sym::check(s == w.expect, "status");
  else
  {
    // only the clock may have ended it, at the start of an iteration
    sym::check(s == OPT_TIME_LIMIT || (s == OPT_CONVERGED && w.feasible(w.best)), "status-time");
    sym::check(static_cast<double>(g_clock_ms) / 1000.0 > prm.max_time, "status-time");
    sym::check(!evaluated || w.accepted || w.subloop_done, "stopped-within-iteration");
    if (s == OPT_TIME_LIMIT && evaluated)
      sym::check(!w.feasible(w.best), "feasible-means-converged");
    sym::cover("time");
  }
  if (s == OPT_CONVERGED)
  {
    sym::cover("converged");
    sym::check(w.feasible(w.best), "converged-means-feasible");
  }
  else if (s == OPT_SCO_ITERATION_LIMIT)
    sym::cover("iterations");
  else if (s == OPT_PENALTY_ITERATION_LIMIT)
    sym::cover("penalties");
  else if (s == OPT_FAILED)
    sym::cover("aborted");
}

BasicTrustRegionSQPParameters params()
{
  BasicTrustRegionSQPParameters p;
  p.trust_box_size = 1;
  p.min_trust_box_size = 0.05;
  p.trust_shrink_ratio = 0.1;
  p.trust_expand_ratio = 1.5;
  p.max_iter = 2;
  p.max_merit_coeff_increases = 2;
  return p;
}
}  // namespace

SYM_HARNESS(steps)
{
  sym::bound("1 cost, 0 or 1 constraint (equality or inequality), 3 QP solves (4 thorough), 2 SQP iterations, 2 penalty rounds; all values of costs, constraints and their models");
  for (const char* c : { "accepted", "rejected", "penalty", "converged", "iterations" })
    sym::require_cover(c);
  Opts o;
  const int k = sym::choose("constraint", 3);
  o.neq = k == 1;
  o.nineq = k == 2;
  run(o, params(), sym::flag("threads"));
}
SYM_HARNESS(fraction)
{
  sym::bound("1 cost, 1 constraint, relative convergence limit 0.01 on a positive merit");
  sym::require_cover("converged");
  Opts o;
  o.models = true;
  BasicTrustRegionSQPParameters p = params();
  p.min_approx_improve_frac = 0.01;
  run(o, p);
}
SYM_HARNESS(subproblem)
{
  sym::bound("1 cost, 2 constraints, first 2 subproblems (3 thorough), all models; every choice of auxiliary variables");
  Opts o;
  o.ncost = 1;
  o.neq = o.nineq = 1;
  o.objective = true;
  o.solves = 2;
  BasicTrustRegionSQPParameters p = params();
  p.improve_ratio_threshold = -1e9;
  p.inflate_constraints_individually = sym::flag("individually");
  run(o, p, sym::flag("threads"));
}
SYM_HARNESS(penalties)
{
  sym::bound("1 cost, 2 constraints, 3 QP solves (4 thorough), 3 penalty rounds, individual or uniform increase");
  sym::require_cover("penalty");
  Opts o;
  o.neq = o.nineq = 1;
  o.models = false;
  BasicTrustRegionSQPParameters p = params();
  p.max_iter = 3;
  p.max_merit_coeff_increases = 3;
  p.min_trust_box_size = 0.5;
  p.trust_box_size = sym::flag("large") ? 4 : 0.5;
  p.inflate_constraints_individually = sym::flag("individually");
  run(o, p);
}
SYM_HARNESS(failures)
{
  sym::bound("1 cost, 1 constraint, every pattern of QP failures over 3 QP solves (4 thorough)");
  for (const char* c : { "failed", "aborted", "accepted" })
    sym::require_cover(c);
  Opts o;
  o.fails = true;
  o.models = false;
  BasicTrustRegionSQPParameters p = params();
  p.max_qp_solver_failures = sym::choose("max_failures", 3);
  p.min_trust_box_size = 0.0005;
  p.max_merit_coeff_increases = 3;
  run(o, p);
}
SYM_HARNESS(limits)
{
  sym::bound("1 cost, 0 or 1 constraint, up to 3 QP solves of 1 s each, every time, iteration and penalty limit within");
  for (const char* c : { "time", "iterations", "penalties", "converged" })
    sym::require_cover(c);
  Opts o;
  o.nineq = sym::choose("constraints", 2);
  o.models = false;
  BasicTrustRegionSQPParameters p = params();
  p.max_iter = 1 + sym::choose("max_iter", 3);
  p.max_time = std::vector<double>{ 0, 0.5, 1.5, 1e9 }[static_cast<std::size_t>(sym::choose("max_time", 4))];
  p.max_merit_coeff_increases = 1 + sym::choose("rounds", 2);
  run(o, p);
}
/** What is handed to the QP as the region to search, for every start and bounds. */
SYM_HARNESS(box)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  auto prob = std::make_shared<OptProb>(ModelType::BPMPD);
  const double lb0 = sym::real_in("lb0", -100, 100), ub0 = sym::real_in("ub0", -100, 100);
  sym::assume_lt(lb0 + 0.01, ub0);
  const int side = sym::choose("second bounds", 3);
  const double lb1 = side == 0 ? -hu::INF : sym::real_in("lb1", -100, 100), ub1 = side == 1 ? hu::INF : 100;
  prob->createVariables({ "a", "b" }, { lb0, lb1 }, { ub0, ub1 });
  struct Zero : Cost
  {
    double value(const DblVec&) override { return 0; }
    ConvexObjective::Ptr convex(const DblVec&, Model* m) override { return std::make_shared<ConvexObjective>(m); }
    VarVector getVars() override { return {}; }
  };
  prob->addCost(std::make_shared<Zero>());
  BasicTrustRegionSQP sqp(prob);
  BasicTrustRegionSQPParameters p = params();
  p.trust_box_size = sym::real_in("box", 0.05, 50);
  p.max_iter = 1;
  sqp.setParameters(p);
  const DblVec start = hs::dbl("start", 2);
  const DblVec x = prob->getClosestFeasiblePoint(start);
  int n = 0;
  g_model->solver = [&] {
    if (n++ > 0)
      return CVX_SOLVED;
    const double lb[2] = { lb0, lb1 }, ub[2] = { ub0, ub1 };
    for (std::size_t i = 0; i < 2; ++i)
    {
      const double lo = x[i] - p.trust_box_size, hi = x[i] + p.trust_box_size;
      sym::check_eq(g_model->vs[i].lb, lo < lb[i] ? lb[i] : lo, "box-lower");
      sym::check_eq(g_model->vs[i].ub, hi < ub[i] ? hi : ub[i], "box-upper");
    }
    sym::cover("solved");
    return CVX_SOLVED;
  };
  sym::require_cover("solved");
  g_model->values = [&](const VarVector&) { return x; };
  sqp.initialize(start);
  const OptStatus s = sqp.optimize();
  sym::check(s == OPT_CONVERGED && n == 1, "stationary");
  sym::check_eq(sqp.x()[0], x[0], "result");
  sym::check_eq(sqp.x()[1], x[1], "result");
}
SYM_HARNESS(misuse)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  auto prob = std::make_shared<OptProb>(ModelType::BPMPD);
  prob->createVariables({ "a", "b" }, { -1, -1 }, { 1, 1 });
  BasicTrustRegionSQP sqp;
  const auto throws = [](const std::function<void()>& f) {
    try
    {
      f();
    }
    catch (const std::exception&)
    {
      return true;
    }
    return false;
  };
  sym::check(throws([&] { sqp.initialize({ 0, 0 }); }), "initialize-without-problem");
  sqp.setProblem(prob);
  sym::check(throws([&] { sqp.optimize(); }), "optimize-without-initialize");
  const int n = sym::choose("length", 4);
  sym::check(throws([&] { sqp.initialize(DblVec(static_cast<std::size_t>(n), 0)); }) == (n != 2), "initialize-length");
  // a second start forgets the first
  OptResults& r = sqp.results();
  r.status = OPT_FAILED;
  r.total_cost = 5;
  r.cost_vals = { 1 };
  r.cnt_viols = { 1 };
  r.n_func_evals = r.n_qp_solves = 3;
  const DblVec x = hs::dbl("x", 2);
  sqp.initialize(x);
  sym::check(r.status == INVALID && r.total_cost == 0 && r.cost_vals.empty() && r.cnt_viols.empty() && r.n_func_evals == 0 && r.n_qp_solves == 0,
             "initialize-clears");
  sym::check_eq(r.x[0], x[0], "initialize-point");
  sym::check_eq(r.x[1], x[1], "initialize-point");
}
/** A directory that cannot be written to costs the log, not the optimisation. */
SYM_HARNESS(log_failure)
{
  Opts o;
  o.models = false;
  BasicTrustRegionSQPParameters p = params();
  p.max_iter = 1;
  p.log_results = true;
  p.log_dir = "/nonexistent-directory/trajopt";
  sym::require_cover("converged");
  run(o, p);
}
