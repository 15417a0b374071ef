// What trajopt prints and logs: model files, expressions, results, step tables, log files and the problem listing.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/solver_utils.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/optimizers.cpp
// @unit trajopt_sco/src/osqp_interface.cpp
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/composite.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/core/cost_term.cpp
// @unit trajopt_ifopt/src/core/problem.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/types.cpp
// @flag -DHAVE_OSQP -I/verif/stubs/osqp
// @flag -include /verif/harness/printed.h
#include "printed_text.h"
#include "nodes.h"
#include "sco.h"
#include <osqp.h>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/types.h>
using namespace sco;
using hu::INF;
using hu::printed;

// no QP is solved here
extern "C" {
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt, OSQPInt, OSQPInt, OSQPFloat*, OSQPInt*, OSQPInt*) { abort(); }
void osqp_set_default_settings(OSQPSettings* s) { *s = OSQPSettings{}; }
OSQPInt osqp_setup(OSQPSolver**, const OSQPCscMatrix*, const OSQPFloat*, const OSQPCscMatrix*, const OSQPFloat*, const OSQPFloat*, OSQPInt, OSQPInt, const OSQPSettings*) { abort(); }
OSQPInt osqp_update_data_vec(OSQPSolver*, const OSQPFloat*, const OSQPFloat*, const OSQPFloat*) { abort(); }
OSQPInt osqp_update_data_mat(OSQPSolver*, const OSQPFloat*, const OSQPInt*, OSQPInt, const OSQPFloat*, const OSQPInt*, OSQPInt) { abort(); }
OSQPInt osqp_warm_start(OSQPSolver*, const OSQPFloat*, const OSQPFloat*) { abort(); }
OSQPInt osqp_solve(OSQPSolver*) { abort(); }
OSQPInt osqp_cleanup(OSQPSolver*) { return 0; }
}

namespace
{
// --- expressions ----------------------------------------------------------------------------------------------------
/** reads sums of products of numbers and names; [ ... ] / 2 is half of what is inside */
struct Reader
{
  std::vector<std::string> t;
  std::size_t at = 0;
  const std::map<std::string, double>& x;
  bool ok = true;
  Reader(const std::string& s, const std::map<std::string, double>& x_) : x(x_)
  {
    std::string w;
    for (char c : s + " ")
    {
      const bool op = std::string("+-*^/[]").find(c) != std::string::npos;
      if (op || c == ' ' || c == '\n')
      {
        if (!w.empty())
          t.push_back(w);
        w.clear();
        if (op)
          t.emplace_back(1, c);
      }
      else
        w += c;
    }
  }
  bool next(const char* s) const { return at < t.size() && t[at] == s; }
  bool factor_follows() const { return at < t.size() && std::string("+-*^/[]").find(t[at]) == std::string::npos; }
  double factor()
  {
    if (!factor_follows())
    {
      ok = false;
      return 0;
    }
    const std::string w = t[at++];
    double v = 0;
    if (hu::marked(w))
      v = hu::number(w);
    else if (w.find_first_not_of("0123456789.") == std::string::npos)
      v = std::stod(w);
    else if (x.count(w) != 0)
      v = x.at(w);
    else
      ok = false;
    if (next("^"))
    {
      ++at;
      ok = ok && next("2");
      ++at;
      return v * v;
    }
    return v;
  }
  double term()
  {
    if (next("["))
    {
      ++at;
      double v = next("]") ? 0 : sum();
      ok = ok && next("]");
      ++at;
      if (next("/"))
      {
        ++at;
        ok = ok && next("2");
        ++at;
        v = v / 2;
      }
      return v;
    }
    double v = factor();
    for (;;)
    {
      if (next("*"))
        ++at;
      else if (!factor_follows())
        return v;
      v = v * factor();
    }
  }
  double sum()
  {
    double v = 0;
    bool first = true;
    while (at < t.size() && t[at] != "]")
    {
      double sign = 1;
      bool any = first;
      while (next("+") || next("-"))
      {
        sign = next("-") ? -sign : sign;
        ++at;
        any = true;
      }
      if (!any || at >= t.size())
      {
        ok = false;
        break;
      }
      first = false;
      v += sign * term();
    }
    return v;
  }
};
/** the text is an expression with this value at x */
void says(const std::string& text, const std::map<std::string, double>& x, double want, const char* what)
{
  Reader r(text, x);
  const double v = r.sum();
  sym::check(r.ok && r.at == r.t.size(), "an expression");
  sym::check_eq(v, want, what);
}
template <class T>
std::string streamed(const T& v)
{
  std::stringstream s;
  s << v;
  return s.str();
}
}  // namespace

SYM_HARNESS(expressions)
{
  sym::bound("expressions of up to 2 linear and 2 quadratic terms over 2 variables, repeated ones included, any coefficients");
  printed = {};
  hu::Streams s;
  const VarVector v = hs::vars(2);
  const DblVec x = hs::dbl("x", 2);
  const std::map<std::string, double> at{ { "x0", x[0] }, { "x1", x[1] } };
  sym::check(streamed(v[1]) == "x1", "variable");
  if (sym::flag("quadratic"))
  {
    const QuadExpr q = hs::quad("q", v, 1, 2);
    says(streamed(q), at, hs::val(q, x), "quadratic expression");
    return;
  }
  const AffExpr e = hs::aff("e", v, 2);
  says(streamed(e), at, hs::val(e, x), "affine expression");
}

SYM_HARNESS(model_file)
{
  sym::bound("a model of 2 variables (one of 3 removed or not) with an objective of up to 1 linear and 1 quadratic term or up to 2 constraints of up to 1 term, any coefficients and bounds");
  printed = {};
  hu::Streams s;
  OSQPModel osqp(std::make_shared<OSQPModelConfig>());
  Model& m = osqp;
  VarVector v;
  std::vector<std::pair<double, double>> b;
  const int removed = sym::choose("removed", 4);
  Var gone;
  const int what = sym::choose("what", 3);
  for (int i = 0; i < (removed == 3 ? 2 : 3); ++i)
  {
    const std::string n = "v" + std::to_string(i);
    const bool box = what == 2 && i != removed;
    const double lo = box ? sym::real_in(n + "_lo", -100, 100) : -5, hi = box ? sym::real_in(n + "_hi", -100, 100) : 7 + i;
    const Var nv = m.addVar(n, lo, hi);
    if (i == removed)
      gone = nv;
    else
    {
      v.push_back(nv);
      b.emplace_back(lo, hi);
    }
  }
  m.update();
  if (removed != 3)
    m.removeVars({ gone });
  m.update();
  QuadExpr obj;
  std::vector<std::pair<AffExpr, bool>> cs;
  if (what == 0)
    obj = hs::quad("obj", v, 1, 1);
  if (what == 1)
    for (int i = 0, k = 1 + sym::choose("constraints", 2); i < k; ++i)
    {
      const std::string n = "c" + std::to_string(i);
      cs.emplace_back(hs::aff(n, v, 1), sym::flag(n + "_eq"));
      if (cs.back().second)
        m.addEqCnt(cs.back().first, n);
      else
        m.addIneqCnt(cs.back().first, n);
    }
  m.setObjective(obj);
  m.update();
  const DblVec x = hs::dbl("x", 2);
  std::map<std::string, double> at;
  for (std::size_t i = 0; i < v.size(); ++i)
    at[v[i].var_rep->name] = x[i];

  m.writeToFile("model.lp");
  sym::check(printed.texts.size() == 1 && printed.texts.count("model.lp") == 1, "the file written");
  const std::string text = printed.texts["model.lp"];

  // sections
  std::map<std::string, std::vector<std::string>> part;
  std::string where;
  for (const auto& l : hu::split(text, "\n"))
  {
    const std::string w = hu::trim(l);
    if (w.empty() || w[0] == '\\')
      continue;
    if (w == "Minimize" || w == "Maximize" || w == "Subject To" || w == "Bounds" || w == "End")
      where = w;
    else
      part[where].push_back(w);
  }
  sym::check(where == "End" && part.count("") == 0 && part.count("Maximize") == 0 && part.count("End") == 0, "sections");
  std::string o;
  for (const auto& l : part["Minimize"])
    o += " " + l;
  says(o, at, hs::val(obj, x), "objective of the file");
  const auto& rows = part["Subject To"];
  sym::check(rows.size() == cs.size(), "constraints of the file");
  for (std::size_t i = 0; i < rows.size() && i < cs.size(); ++i)
  {
    const std::string op = cs[i].second ? "=" : "<=";
    const std::size_t k = rows[i].find(op);
    sym::check(k != std::string::npos && (!cs[i].second || rows[i].find_first_of("<>") == k - 1 || rows[i].find('<' + op) == std::string::npos), "kind of a constraint of the file");
    if (k == std::string::npos)
      continue;
    sym::check(hu::trim(rows[i].substr(k + op.size())) == "0", "right side of a constraint of the file");
    says(rows[i].substr(0, k), at, hs::val(cs[i].first, x), "constraint of the file");
  }
  const auto& box = part["Bounds"];
  sym::check(box.size() == v.size(), "bounds of the file");
  for (std::size_t i = 0; i < box.size() && i < v.size(); ++i)
  {
    const auto w = hu::words(box[i]);
    const bool form = w.size() == 5 && w[1] == "<=" && w[3] == "<=" && w[2] == v[i].var_rep->name;
    sym::check(form, "a bound of the file");
    if (form)
    {
      hu::is(w[0], b[i].first, "lower bound of the file");
      hu::is(w[4], b[i].second, "upper bound of the file");
    }
  }
}

// --- results --------------------------------------------------------------------------------------------------------
namespace
{
/** "(a, b)" */
void list(const std::string& text, const DblVec& want, const char* what)
{
  const bool form = text.size() >= 2 && text[0] == '(' && text.back() == ')';
  sym::check(form, what);
  if (!form)
    return;
  const auto w = hu::words(text.substr(1, text.size() - 2));
  sym::check(w.size() == want.size(), what);
  for (std::size_t i = 0; i < w.size() && i < want.size(); ++i)
    hu::is(w[i].back() == ',' ? w[i].substr(0, w[i].size() - 1) : w[i], want[i], what);
}
/** the text after "label:" of the line that starts with it */
std::string after(const std::string& text, const std::string& label)
{
  std::string r;
  int n = 0;
  for (const auto& l : hu::split(text, "\n"))
    if (hu::trim(l).rfind(label + ":", 0) == 0)
    {
      ++n;
      r = hu::trim(hu::trim(l).substr(label.size() + 1));
    }
  sym::check(n == 1, "one line for each label");
  return r;
}
DblVec some(const std::string& n, int k) { return hs::dbl(n, k); }
}  // namespace

SYM_HARNESS(results)
{
  sym::bound("results with 0..2 costs and 0..2 constraints, any values and every status");
  printed = {};
  hu::Streams s;
  OptResults r;
  r.status = static_cast<OptStatus>(sym::choose("status", 6));
  r.cost_vals = some("cost", sym::choose("costs", 3));
  r.cnt_viols = some("viol", sym::choose("cnts", 3));
  r.n_func_evals = 3;
  r.n_qp_solves = 5;
  const std::string t = streamed(r);
  static const char* names[] = { "OPT_CONVERGED", "OPT_SCO_ITERATION_LIMIT", "OPT_PENALTY_ITERATION_LIMIT", "OPT_TIME_LIMIT", "OPT_FAILED", "INVALID" };
  sym::check(after(t, "status") == names[r.status], "status");
  list(after(t, "cost values"), r.cost_vals, "cost values");
  list(after(t, "constraint violations"), r.cnt_viols, "constraint violations");
  sym::check(after(t, "n func evals") == "3" && after(t, "n qp solves") == "5", "counters");
}

SYM_HARNESS(sqp_results)
{
  sym::bound("results with 1..2 variables, 0..2 costs and 0..2 constraints, any values and every status");
  printed = {};
  hu::Streams s;
  using namespace trajopt_sqp;
  const int n = 1 + sym::choose("vars", 2), nc = sym::choose("costs", 3), nk = sym::choose("cnts", 3);
  SQPResults r(n, nk, nc);
  std::vector<std::pair<std::string, Eigen::VectorXd*>> v{ { "best_var_vals", &r.best_var_vals },
                                                           { "new_var_vals", &r.new_var_vals },
                                                           { "box_size", &r.box_size },
                                                           { "merit_error_coeffs", &r.merit_error_coeffs },
                                                           { "best_constraint_violations", &r.best_constraint_violations },
                                                           { "new_constraint_violations", &r.new_constraint_violations },
                                                           { "best_approx_constraint_violations", &r.best_approx_constraint_violations },
                                                           { "new_approx_constraint_violations", &r.new_approx_constraint_violations },
                                                           { "best_costs", &r.best_costs },
                                                           { "new_costs", &r.new_costs },
                                                           { "best_approx_costs", &r.best_approx_costs },
                                                           { "new_approx_costs", &r.new_approx_costs } };
  std::vector<std::pair<std::string, double*>> d{ { "best_exact_merit", &r.best_exact_merit },
                                                  { "new_exact_merit", &r.new_exact_merit },
                                                  { "best_approx_merit", &r.best_approx_merit },
                                                  { "new_approx_merit", &r.new_approx_merit },
                                                  { "approx_merit_improve", &r.approx_merit_improve },
                                                  { "exact_merit_improve", &r.exact_merit_improve },
                                                  { "merit_improve_ratio", &r.merit_improve_ratio } };
  for (auto& x : v)
    *x.second = hu::vec(x.first, static_cast<int>(x.second->size()));
  for (auto& x : d)
    *x.second = sym::real(x.first);
  r.penalty_iteration = 2;
  r.convexify_iteration = 3;
  r.trust_region_iteration = 5;
  r.overall_iteration = 7;
  r.print();
  const std::string t = s.buf.str();
  for (auto& x : d)
    hu::is(after(t, x.first), *x.second, x.first.c_str());
  for (auto& x : v)
  {
    const auto w = hu::words(after(t, x.first));
    sym::check(static_cast<Eigen::Index>(w.size()) == x.second->size(), x.first.c_str());
    for (std::size_t i = 0; i < w.size() && static_cast<Eigen::Index>(i) < x.second->size(); ++i)
      hu::is(w[i], (*x.second)(static_cast<Eigen::Index>(i)), x.first.c_str());
  }
  sym::check(after(t, "penalty_iteration") == "2" && after(t, "convexify_iteration") == "3" && after(t, "trust_region_iteration") == "5" && after(t, "overall_iteration") == "7", "iterations");
  static const std::pair<SQPStatus, const char*> names[] = { { SQPStatus::kRunning, "SQP_RUNNING" },
                                                             { SQPStatus::kConverged, "SQP_CONVERGED" },
                                                             { SQPStatus::kIterationLimit, "SQP_ITERATION_LIMIT" },
                                                             { SQPStatus::kPenaltyIterationLimit, "SQP_PENALTY_ITERATION_LIMIT" },
                                                             { SQPStatus::kTimeLimit, "SQP_TIME_LIMIT" },
                                                             { SQPStatus::kQPSolveFailed, "SQP_FAILED" },
                                                             { SQPStatus::kStoppedByCallback, "SQP_STOPPED_BY_CALLBACK" } };
  for (const auto& x : names)
    sym::check(trajopt_sqp::toString(x.first) == x.second, "status");
}

// --- step tables and log files --------------------------------------------------------------------------------------
namespace
{
struct Row
{
  std::string label;
  std::vector<std::string> cells;
};
/** the lines of a table that hold numbers: cells between bars, label after the last one */
std::vector<Row> table(const std::string& text)
{
  std::vector<Row> r;
  for (const auto& l : hu::split(text, "\n"))
  {
    auto c = hu::split(l, "|");
    bool any = false;
    for (auto& x : c)
    {
      x = hu::trim(x);
      any = any || hu::marked(x);
    }
    if (!any || c.size() != 9)
      continue;
    r.push_back({ c.back(), { c.begin() + 1, c.end() - 1 } });
  }
  return r;
}
/** what a row says: merit, old, new, model, model improvement, improvement; the ratio of the last two if the former is not negligible */
void row(const Row& r, const std::string& label, double merit, double o, double n, double m, bool has_merit, const char* what)
{
  sym::check(r.label == label, what);
  if (has_merit)
    hu::is(r.cells[0], merit, what);
  else
    sym::check(!hu::marked(r.cells[0]), what);
  const double f = has_merit ? merit : 1;
  hu::is(r.cells[1], f * o, what);
  hu::is(r.cells[2], f * n, what);
  hu::is(r.cells[3], f * m, what);
  hu::is(r.cells[4], f * (o - m), what);
  hu::is(r.cells[5], f * (o - n), what);
  if (hu::marked(r.cells[6]))
    sym::check_eq(hu::number(r.cells[6]) * (o - m), o - n, "ratio");
  else
    sym::check_le(hu::absv(o - m), 1e-6, "ratio left out");
}
double total(const DblVec& v)
{
  double s = 0;
  for (double x : v)
    s += x;
  return s;
}
void sums(const Row& r, const std::string& label, const DblVec& o, const DblVec& n, const DblVec& m, const char* what)
{
  sym::check(r.label.rfind(label, 0) == 0, what);
  hu::is(r.cells[1], total(o), what);
  hu::is(r.cells[2], total(n), what);
  hu::is(r.cells[3], total(m), what);
}
struct Step
{
  int nc, nk;
  DblVec oc, ncv, mc, ok, nk_, mk, merit;
  Step()
    : nc(sym::choose("costs", 3)), nk(sym::choose("cnts", 3)), oc(some("old_cost", nc)), ncv(some("new_cost", nc)), mc(some("model_cost", nc)), ok(some("old_viol", nk)), nk_(some("new_viol", nk)), mk(some("model_viol", nk)), merit(some("merit", nk))
  {
    sym::assume(nc + nk < 4);
  }
  std::vector<std::string> names(const std::string& p, int n) const
  {
    std::vector<std::string> r;
    for (int i = 0; i < n; ++i)
      r.push_back(p + std::to_string(i));
    return r;
  }
  void check_table(const std::string& text, double om, double nm, double am, double em, double rm) const
  {
    const auto r = table(text);
    const std::size_t want = static_cast<std::size_t>(nc + nk + 3);
    sym::check(r.size() == want, "rows");
    if (r.size() != want)
      sym::stop();
    std::size_t k = 0;
    for (int i = 0; i < nc; ++i, ++k)
    {
      const std::size_t j = static_cast<std::size_t>(i);
      row(r[k], "cost" + std::to_string(i), 0, oc[j], ncv[j], mc[j], false, "cost row");
    }
    sums(r[k++], "SUM COSTS", oc, ncv, mc, "sum of the costs");
    for (int i = 0; i < nk; ++i, ++k)
    {
      const std::size_t j = static_cast<std::size_t>(i);
      row(r[k], "cnt" + std::to_string(i), merit[j], ok[j], nk_[j], mk[j], true, "constraint row");
    }
    sums(r[k++], "SUM CONSTRAINTS", ok, nk_, mk, "sum of the constraints");
    sym::check(r[k].label.rfind("TOTAL", 0) == 0, "total");
    hu::is(r[k].cells[1], om, "total");
    hu::is(r[k].cells[2], nm, "total");
    hu::is(r[k].cells[4], am, "total");
    hu::is(r[k].cells[5], em, "total");
    hu::is(r[k].cells[6], rm, "total");
  }
};
struct Solver : BasicTrustRegionSQP
{
};
struct Table
{
  Step s;
  Solver parent;
  BasicTrustRegionSQPResults r;
  Table() : r({ "va", "vb" }, s.names("cost", s.nc), s.names("cnt", s.nk), parent)
  {
    r.new_x = some("x", 2);
    r.old_cost_vals = s.oc;
    r.new_cost_vals = s.ncv;
    r.model_cost_vals = s.mc;
    r.old_cnt_viols = s.ok;
    r.new_cnt_viols = s.nk_;
    r.model_cnt_viols = s.mk;
    r.merit_error_coeffs = s.merit;
    r.old_merit = sym::real("old_merit");
    r.new_merit = sym::real("new_merit");
    r.approx_merit_improve = sym::real("approx");
    r.exact_merit_improve = sym::real("exact");
    r.merit_improve_ratio = sym::real("ratio");
  }
};
}  // namespace

SYM_HARNESS(step_table)
{
  sym::bound("the table of a step of BasicTrustRegionSQP with up to 3 costs and constraints, any values");
  printed = {};
  const Table t;
  t.r.print();
  t.s.check_table(printed.out, t.r.old_merit, t.r.new_merit, t.r.approx_merit_improve, t.r.exact_merit_improve, t.r.merit_improve_ratio);
}

SYM_HARNESS(log_files)
{
  sym::bound("the four log files of BasicTrustRegionSQP after 1..2 steps with up to 3 costs and constraints, any values");
  printed = {};
  const Table t;
  std::FILE* f[4];
  for (int i = 0; i < 4; ++i)
    f[i] = hu_fopen(("log" + std::to_string(i)).c_str(), "w");
  const bool header = sym::flag("header");
  t.r.writeSolver(f[0], header);
  t.r.writeVars(f[1], header);
  t.r.writeCosts(f[2], header);
  t.r.writeConstraints(f[3], header);
  // rows of fields
  std::vector<std::vector<std::string>> rows[4];
  for (int i = 0; i < 4; ++i)
  {
    const std::string& text = printed.files[f[i]];
    sym::check(!text.empty() && text.back() == '\n', "complete lines");
    auto lines = hu::split(text, "\n");
    lines.pop_back();
    for (const auto& l : lines)
    {
      rows[i].push_back(hu::split(l, ","));
      for (auto& c : rows[i].back())
        c = hu::trim(c);
    }
    const std::size_t want = 1 + (header ? (i < 2 ? 1U : 2U) : 0U);
    sym::check(rows[i].size() == want, "lines");
    if (rows[i].size() != want)
      sym::stop();
    for (const auto& r : rows[i])
      sym::check(r.size() == rows[i][0].size(), "as many fields as headings");
    if (rows[i].back().size() != rows[i][0].size())
      sym::stop();
  }
  if (header)
  {
    const std::vector<std::string> quad{ "oldexact", "dapprox", "dexact", "ratio" };
    sym::check(rows[0][0] == std::vector<std::string>{ "DESCRIPTION", "oldexact", "new_exact", "dapprox", "dexact", "ratio" }, "headings of the solver log");
    sym::check(rows[1][0] == std::vector<std::string>{ "NAMES", "va", "vb" }, "headings of the variable log");
    for (int k = 2; k < 4; ++k)
      for (std::size_t i = 1; i < rows[k][0].size(); ++i)
      {
        sym::check(rows[k][0][i] == (k == 2 ? "cost" : "cnt") + std::to_string((i - 1) / 4), "names of the log");
        sym::check(rows[k][1][i] == quad[(i - 1) % 4], "headings of the log");
      }
  }
  const auto& a = rows[0].back();
  sym::check(a.size() == 6 && a[0] == "Solver", "solver log");
  if (a.size() == 6)
  {
    hu::is(a[1], t.r.old_merit, "solver log");
    hu::is(a[2], t.r.new_merit, "solver log");
    hu::is(a[3], t.r.approx_merit_improve, "solver log");
    hu::is(a[4], t.r.exact_merit_improve, "solver log");
    hu::is(a[5], t.r.merit_improve_ratio, "solver log");
  }
  const auto& v = rows[1].back();
  sym::check(v.size() == 3 && v[0] == "VALUES", "variable log");
  for (std::size_t i = 1; i < v.size(); ++i)
    hu::is(v[i], t.r.new_x[i - 1], "variable log");
  for (int k = 2; k < 4; ++k)
  {
    const auto& w = rows[k].back();
    const int n = k == 2 ? t.s.nc : t.s.nk;
    const bool size = static_cast<int>(w.size()) == 1 + 4 * n;
    sym::check(size && w[0] == (k == 2 ? "COSTS" : "CONSTRAINTS"), "log");
    for (std::size_t i = 0; size && static_cast<int>(i) < n; ++i)
    {
      const double o = k == 2 ? t.s.oc[i] : t.s.ok[i], m = k == 2 ? t.s.mc[i] : t.s.mk[i], nw = k == 2 ? t.s.ncv[i] : t.s.nk_[i], f = k == 2 ? 1.0 : t.s.merit[i];
      hu::is(w[1 + 4 * i], f * o, "logged value");
      hu::is(w[2 + 4 * i], f * (o - m), "logged model improvement");
      hu::is(w[3 + 4 * i], f * (o - nw), "logged improvement");
      if (hu::marked(w[4 + 4 * i]))
        sym::check_eq(hu::number(w[4 + 4 * i]) * (o - m), o - nw, "logged ratio");
      else
      {
        sym::check(w[4 + 4 * i] == "nan", "logged ratio");
        sym::check_le(hu::absv(o - m), 1e-6, "logged ratio left out");
      }
    }
  }
}

namespace
{
struct NoProblem : trajopt_sqp::QPProblem
{
  std::vector<std::string> c, k;
  Eigen::VectorXd none;
  trajopt_ifopt::Jacobian no;
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, trajopt_sqp::CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double*) override {}
  Eigen::VectorXd getVariableValues() const override { return none; }
  void convexify() override {}
  double evaluateTotalConvexCost(const Eigen::Ref<const Eigen::VectorXd>&) const override { return 0; }
  Eigen::VectorXd evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>&) const override { return none; }
  double getTotalExactCost() const override { return 0; }
  Eigen::VectorXd getExactCosts() const override { return none; }
  Eigen::VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const Eigen::VectorXd>&) const override { return none; }
  Eigen::VectorXd getExactConstraintViolations() const override { return none; }
  void scaleBoxSize(double&) override {}
  void setBoxSize(const Eigen::Ref<const Eigen::VectorXd>&) override {}
  void setConstraintMeritCoeff(const Eigen::Ref<const Eigen::VectorXd>&) override {}
  const Eigen::VectorXd& getBoxSize() const override { return none; }
  const Eigen::VectorXd& getConstraintMeritCoeff() const override { return none; }
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return 1; }
  Eigen::Index getNumNLPConstraints() const override { return 0; }
  Eigen::Index getNumNLPCosts() const override { return 0; }
  Eigen::Index getNumQPVars() const override { return 1; }
  Eigen::Index getNumQPConstraints() const override { return 0; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return k; }
  const std::vector<std::string>& getNLPCostNames() const override { return c; }
  const trajopt_ifopt::Jacobian& getHessian() const override { return no; }
  const Eigen::VectorXd& getGradient() const override { return none; }
  const trajopt_ifopt::Jacobian& getConstraintMatrix() const override { return no; }
  const Eigen::VectorXd& getBoundsLower() const override { return none; }
  const Eigen::VectorXd& getBoundsUpper() const override { return none; }
};
struct SqpSolver : trajopt_sqp::TrustRegionSQPSolver
{
  using TrustRegionSQPSolver::TrustRegionSQPSolver;
  trajopt_sqp::SQPResults& r() { return results_; }
};
Eigen::VectorXd eig(const DblVec& v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size())); }
}  // namespace

SYM_HARNESS(sqp_table)
{
  sym::bound("the table of a step of TrustRegionSQPSolver with up to 3 costs and constraints, any values");
  printed = {};
  const Step s;
  SqpSolver solver(nullptr);
  auto p = std::make_shared<NoProblem>();
  p->c = s.names("cost", s.nc);
  p->k = s.names("cnt", s.nk);
  solver.qp_problem = p;
  trajopt_sqp::SQPResults& r = solver.r();
  r = trajopt_sqp::SQPResults(1, s.nk, s.nc);
  r.best_costs = eig(s.oc);
  r.new_costs = eig(s.ncv);
  r.new_approx_costs = eig(s.mc);
  r.best_constraint_violations = eig(s.ok);
  r.new_constraint_violations = eig(s.nk_);
  r.new_approx_constraint_violations = eig(s.mk);
  r.merit_error_coeffs = eig(s.merit);
  r.box_size(0) = sym::real("box");
  for (double* d : { &r.best_exact_merit, &r.new_exact_merit, &r.approx_merit_improve, &r.exact_merit_improve, &r.merit_improve_ratio })
    *d = sym::real("total" + std::to_string(d - &r.best_exact_merit));
  r.overall_iteration = 11;
  r.convexify_iteration = 22;
  r.trust_region_iteration = 33;
  r.penalty_iteration = 44;
  solver.params.cnt_tolerance = sym::real_in("tolerance", 1e-6, 1);
  solver.printStepInfo();
  s.check_table(printed.out, r.best_exact_merit, r.new_exact_merit, r.approx_merit_improve, r.exact_merit_improve, r.merit_improve_ratio);
  // head
  int heads = 0;
  for (const auto& l : hu::split(printed.out, "\n"))
    if (l.find("Overall") != std::string::npos)
    {
      ++heads;
      std::map<std::string, std::string> v;
      for (const auto& c : hu::split(l, "|"))
        if (c.find(':') != std::string::npos)
          v[hu::trim(c.substr(0, c.find(':')))] = hu::trim(c.substr(c.find(':') + 1));
      sym::check(v["Overall"] == "11" && v["Convexify"] == "22" && v["Trust Region"] == "33" && v["Penalty"] == "44", "iterations");
    }
  sym::check(heads == 1, "iterations");
  const std::size_t b = printed.out.find("Box Size:");
  sym::check(b != std::string::npos, "box size");
  if (b != std::string::npos)
    hu::is(printed.out.substr(printed.out.find('<', b), printed.out.find('>', b) + 1 - printed.out.find('<', b)), r.box_size(0), "box size");
  bool fine = true;
  for (double v : s.nk_)
    if (!(v < solver.params.cnt_tolerance))
      fine = false;
  sym::check((printed.out.find("(True)") != std::string::npos) == fine && (printed.out.find("(False)") != std::string::npos) != fine, "satisfied");
}

// --- the problem ----------------------------------------------------------------------------------------------------
namespace
{
struct Price : trajopt_ifopt::CostTerm
{
  double c;
  Price(std::string n, double c_) : CostTerm(std::move(n)), c(c_) { non_zeros_ = 0; }
  int update() override { return 1; }
  double getCost() const override { return c; }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(1); }
  trajopt_ifopt::Jacobian getJacobian() const override { return trajopt_ifopt::Jacobian(1, 2); }
};
}  // namespace

SYM_HARNESS(listing)
{
  sym::bound("a problem of 2 variables with 0..2 costs and 0..2 constraint sets of 1..2 rows, any values and limits");
  printed = {};
  using namespace trajopt_ifopt;
  hu::Streams s;
  std::vector<Bounds> vb;
  const Eigen::VectorXd x = hu::vec("x", 2);
  int violated = 0;
  auto limits = [&](const std::string& n, double v, int& count) {
    const double lo = sym::real_in(n + ".lo", -100, 100), hi = lo + sym::real_in(n + ".w", 0, 100);
    // between the limit and the tolerance around it either report is right
    sym::assume_lt(1e-2, hu::absv(v - lo));
    sym::assume_lt(1e-2, hu::absv(v - hi));
    if (v < lo)
      ++count;
    else if (v > hi)
      ++count;
    return Bounds(lo, hi);
  };
  for (double l : { -2.0, 3.0 })
    sym::assume_lt(1e-2, hu::absv(x(0) - l));
  if (x(0) < -2)
    ++violated;
  else if (x(0) > 3)
    ++violated;
  vb.emplace_back(-2, 3);
  vb.emplace_back(-INF, INF);
  std::vector<std::unique_ptr<Node>> nodes;
  nodes.push_back(std::make_unique<Node>("n"));
  nodes[0]->addVar("position", { "a", "b" }, Eigen::VectorXd::Zero(2), vb);
  auto vars = std::make_shared<NodesVariables>("the_variables", std::move(nodes));
  vars->setVariables(x);
  Problem p(vars);
  std::vector<double> prices;
  for (int i = 0, k = sym::choose("costs", 3); i < k; ++i)
  {
    prices.push_back(sym::real("price" + std::to_string(i)));
    p.addCostSet(std::make_shared<Price>("price" + std::to_string(i), prices.back()));
  }
  std::vector<std::pair<int, int>> cnts;  // rows, violated
  for (int i = 0, k = sym::choose("cnts", 3); i < k; ++i)
  {
    const std::string n = "cnt" + std::to_string(i);
    const int rows = 1 + (i == 0 ? sym::choose(n + "_rows", 2) : 0);
    Eigen::VectorXd c = hu::vec(n, rows);
    int out = 0;
    std::vector<Bounds> b;
    for (int j = 0; j < rows; ++j)
      b.push_back(limits(n + std::to_string(j), c(j), out));
    p.addConstraintSet(std::make_shared<hu::AffineCnt>(n, Eigen::MatrixXd::Zero(rows, 2), c, Eigen::VectorXd::Ones(rows), b));
    cnts.emplace_back(rows, out);
  }
  p.printCurrent();
  std::string t;
  const std::string raw = s.buf.str();
  for (std::size_t i = 0; i < raw.size(); ++i)
    if (raw[i] == '\033')
    {
      i = raw.find('m', i);
      t += ' ';
    }
    else
      t += raw[i] == '.' ? ' ' : raw[i];
  auto line = [&](const std::string& name) {
    std::vector<std::string> r;
    int n = 0;
    for (const auto& l : hu::split(t, "\n"))
    {
      const auto w = hu::words(l);
      if (w.size() == 5 && w[0] == name)
      {
        r = w;
        ++n;
      }
    }
    sym::check(n == 1, "one line for each set");
    if (n != 1)
      sym::stop();
    return r;
  };
  auto set = [&](const std::string& name, int rows, int first, int out) {
    const auto w = line(name);
    sym::check(w[1] == std::to_string(rows), "rows of a set");
    sym::check(w[2] == std::to_string(first) && w[3] == std::to_string(first + rows - 1), "indices of a set");
    sym::check(w[4] == std::to_string(out), "violated rows of a set");
  };
  set("the_variables", 2, 0, violated);
  int at = 0;
  for (std::size_t i = 0; i < cnts.size(); ++i)
  {
    set("cnt" + std::to_string(i), cnts[i].first, at, cnts[i].second);
    at += cnts[i].first;
  }
  for (std::size_t i = 0; i < prices.size(); ++i)
  {
    const auto w = line("price" + std::to_string(i));
    sym::check(w[1] == "1", "rows of a cost");
    hu::is(w[4], prices[i], "value of a cost");
  }
}
