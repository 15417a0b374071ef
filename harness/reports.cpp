// What the callbacks of the sco based trajopt report: a file with the iterates, and pictures of them.
// @unit trajopt/src/problem_description.cpp
// @unit trajopt/src/trajectory_costs.cpp
// @unit trajopt/src/kinematic_terms.cpp
// @unit trajopt/src/collision_terms.cpp
// @unit trajopt/src/json_marshal.cpp
// @unit trajopt/src/utils.cpp
// @unit trajopt/src/file_write_callback.cpp
// @unit trajopt/src/plot_callback.cpp
// @unit trajopt_common/src/collision_types.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/modeling_utils.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/num_diff.cpp
// @unit trajopt_sco/src/optimizers.cpp
// @flag -DHAVE_BPMPD
#define REAL_PLOT_CALLBACK
#include "problem.h"
#include "picture.h"
#include <fstream>
#include <locale>
#include <sstream>
#include <trajopt/file_write_callback.hpp>
using namespace trajopt;
using Eigen::VectorXd;

namespace
{
/** numbers written to any stream: remembered, and marked in the text */
std::vector<double> written;
struct Numbers : std::num_put<char>
{
  iter_type put(iter_type o, double v) const
  {
    const std::string s = "<" + std::to_string(written.size()) + ">";
    written.push_back(v);
    for (char c : s)
      *o++ = c;
    return o;
  }
  iter_type do_put(iter_type o, std::ios_base&, char_type, double v) const override { return put(o, v); }
};
struct Output
{
  std::stringbuf buf;
  std::shared_ptr<std::ofstream> file{ std::make_shared<std::ofstream>() };
  Output()
  {
    written.clear();
    const std::locale l(std::locale::classic(), new Numbers);
    std::locale::global(l);
    file->imbue(l);
    static_cast<std::ios&>(*file).rdbuf(&buf);
  }
  ~Output()
  {
    static_cast<std::ios&>(*file).rdbuf(nullptr);
    std::locale::global(std::locale::classic());
  }
  /** the lines written since the last call */
  std::vector<std::string> lines()
  {
    std::vector<std::string> r(1);
    for (char c : buf.str())
      if (c == '\n')
        r.emplace_back();
      else
        r.back() += c;
    sym::check(r.back().empty(), "complete lines");
    r.pop_back();
    buf.str("");
    return r;
  }
};
struct Token
{
  double v;
  std::string before;  // text between the previous number and this one
};
std::vector<Token> tokens(const std::string& line)
{
  std::vector<Token> r;
  std::string text;
  for (std::size_t i = 0; i < line.size(); ++i)
    if (line[i] == '<')
    {
      const std::size_t e = line.find('>', i);
      r.push_back({ written.at(std::stoul(line.substr(i + 1, e - i - 1))), text });
      text.clear();
      i = e;
    }
    else
      text += line[i];
  sym::check(text.empty(), "nothing after the last number");
  return r;
}
DblVec iterate(const Plan& p, const std::string& s)
{
  DblVec x;
  for (int i = 0; i < p.n * p.cols(); ++i)
    x.push_back(sym::real_in(s + std::to_string(i), -16, 16));
  return x;
}
VectorXd joints(const Plan& p, const DblVec& x, int step)
{
  VectorXd q(p.dof);
  for (int j = 0; j < p.dof; ++j)
    q(j) = x[p.at(step, j)];
  return q;
}
std::shared_ptr<JointPosTermInfo> position(const std::string& name, int dof)
{
  auto t = term<JointPosTermInfo>(name);
  t->targets = DblVec(static_cast<std::size_t>(dof), 1.0);
  return t;
}

void trajectory_shown(const hu::Picture::Event& e, const Plan& p, const DblVec& x)
{
  sym::check(e.t.states.size() == static_cast<std::size_t>(p.n), "one state per step");
  for (std::size_t i = 0; i < e.t.states.size(); ++i)
  {
    const auto& s = e.t.states[i];
    sym::check(s.joint_names == p.robot->getJointNames(), "joint names");
    const bool all = s.position.size() == p.dof;
    sym::check(all, "one value per joint");
    if (!all)
      sym::stop();
    const VectorXd q = joints(p, x, static_cast<int>(i));
    for (int j = 0; j < p.dof; ++j)
      sym::check_eq(s.position(j), q(j), "joint values of the step");
  }
}
}  // namespace

SYM_HARNESS(file_rows)
{
  sym::bound("1..3 steps, 1..2 joints, with and without time, two iterates with any joint values, 0..2 costs and 0..2 constraints of any values");
  const int n = 1 + sym::choose("steps", 3), dof = 1 + sym::choose("dof", 2);
  Plan p(n, dof);
  const bool time = sym::flag("time");
  if (time)
    p.add(term<TotalTimeTermInfo>("total"), true, true);
  p.add(position("near", dof), true);
  p.add(position("at", dof), false);
  const TrajOptProb::Ptr prob = p.build();
  Output out;
  const auto f = WriteCallback(out.file, prob);
  const std::vector<std::string> header = out.lines();
  sym::check(header.size() == 1, "one header");
  std::size_t at = 0;
  for (const auto& c : prob->getCosts())
  {
    at = header[0].find(c->name(), at);
    sym::check(at != std::string::npos, "cost named in the header");
  }
  for (const auto& c : prob->getConstraints())
  {
    at = at == std::string::npos ? at : header[0].find(c->name(), at);
    sym::check(at != std::string::npos, "constraint named in the header");
  }
  const int costs = sym::choose("costs", 3), cnts = sym::choose("constraints", 3);
  for (int k = 0; k < 2; ++k)
  {
    const std::string s = std::to_string(k) + "_";
    sco::OptResults r;
    r.clear();
    r.x = iterate(p, "x" + s);
    r.cost_vals = hs::dbl("cost" + s, costs);
    r.cnt_viols = hs::dbl("violation" + s, cnts);
    f(prob.get(), r);
    const std::vector<std::string> lines = out.lines();
    sym::check(lines.size() == static_cast<std::size_t>(n) + 1 && lines.back().empty(), "a line per step, then an empty one");
    if (lines.size() < static_cast<std::size_t>(n))
      sym::stop();
    for (int i = 0; i < n; ++i)
    {
      const std::vector<Token> t = tokens(lines[static_cast<std::size_t>(i)]);
      const std::size_t cols = static_cast<std::size_t>(p.cols()), links = p.robot->links.size();
      const bool all = t.size() == cols + 7 * links + r.cost_vals.size() + r.cnt_viols.size();
      sym::check(all, "values of a line");
      if (!all)
        sym::stop();
      std::size_t c = 0;
      for (; c < cols; ++c)
      {
        sym::check_eq(t[c].v, r.x[p.at(i, static_cast<int>(c))], "joint values of the step");
        sym::check(t[c].before == (c == 0 ? "" : ","), "separated by commas");
      }
      const VectorXd q = joints(p, r.x, i);
      std::set<std::string> seen;
      for (std::size_t l = 0; l < links; ++l)
      {
        std::string link;
        for (char ch : t[c].before)
          if (std::isalnum(static_cast<unsigned char>(ch)))
            link += ch;
        const bool known = p.robot->links.count(link) == 1 && seen.insert(link).second;
        sym::check(known, "a link");
        if (!known)
          sym::stop();
        const Eigen::Isometry3d want = p.robot->pose(link, q);
        for (int d = 0; d < 3; ++d)
          sym::check_eq(t[c + static_cast<std::size_t>(d)].v, want.translation()(d), "position of the link");
        const Eigen::Quaterniond r4(t[c + 3].v, t[c + 4].v, t[c + 5].v, t[c + 6].v);
        sym::check_eq(r4.squaredNorm(), 1, "unit quaternion");
        const Eigen::Matrix3d R = r4.toRotationMatrix();
        for (int a = 0; a < 3; ++a)
          for (int b = 0; b < 3; ++b)
            sym::check_near(R(a, b), want.linear()(a, b), 1e-9, "orientation of the link");
        c += 7;
      }
      for (double v : r.cost_vals)
        sym::check_eq(t[c++].v, v, "cost values");
      for (double v : r.cnt_viols)
        sym::check_eq(t[c++].v, v, "constraint violations");
    }
  }
}

SYM_HARNESS(pictures)
{
  sym::bound("1..3 steps, 2 joints, with and without time, one pose cost and one pose constraint at any steps, a static or moving target, other costs; two iterates of any joint values; PlotCallback and PlotProbCallback");
  const int n = 1 + sym::choose("steps", 3), dof = 2;
  Plan p(n, dof);
  const bool time = sym::flag("time");
  if (time)
    p.add(term<TotalTimeTermInfo>("total"), true, true);
  p.add(position("near", dof), true);
  const hu::Iso so = hu::iso(hu::turn(1), hu::point("source", 2)), to = hu::iso(hu::turn(3), hu::point("target", 2));
  struct Shown
  {
    int step;
    std::string target;
  };
  std::vector<Shown> shown;
  for (int k = 0; k < 2; ++k)
  {
    const bool dynamic = sym::flag("dynamic" + std::to_string(k));
    auto fill = [&](auto t) {
      t->timestep = sym::choose("step" + std::to_string(k), n);
      t->source_frame = "m";
      t->target_frame = dynamic ? "n" : "s";
      t->source_frame_offset = so;
      t->target_frame_offset = to;
      shown.push_back({ t->timestep, t->target_frame });
      p.add(t, k == 0);
    };
    if (dynamic)
      fill(term<DynamicCartPoseTermInfo>("pose"));
    else
      fill(term<CartPoseTermInfo>("pose"));
  }
  const TrajOptProb::Ptr prob = p.build();
  auto pic = std::make_shared<hu::Picture>();
  Scene::Solver solver;
  // a problem without time may be shown without knowing that it is a trajectory problem
  const bool plain = !time && sym::flag("plain");
  std::function<void(sco::OptProb*, sco::OptResults&)> f;
  if (plain)
  {
    const std::vector<std::string> names = p.robot->getJointNames();
    f = PlotProbCallback(pic, solver, names);
    for (int k = 0; k < 2; ++k)
    {
      sco::OptResults r;
      r.clear();
      r.x = iterate(p, "y" + std::to_string(k) + "_");
      pic->events.clear();
      f(prob.get(), r);
      for (const auto& e : pic->events)
        if (e.kind == 't')
        {
          trajectory_shown(e, p, r.x);
          sym::check(e.solver == &solver, "state solver");
        }
    }
  }
  else
    f = PlotCallback(pic);
  for (int k = 0; k < 2; ++k)
  {
    sco::OptResults r;
    r.clear();
    r.x = iterate(p, "x" + std::to_string(k) + "_");
    pic->events.clear();
    f(prob.get(), r);
    std::string kinds;
    for (const auto& e : pic->events)
      kinds += e.kind;
    // cleared before anything is drawn, one trajectory, then one pause
    sym::check(kinds.find('x') == 0 && kinds.rfind('x') == 0, "cleared first");
    sym::check(std::count(kinds.begin(), kinds.end(), 't') == 1, "one trajectory");
    sym::check(!kinds.empty() && kinds.back() == 'w' && std::count(kinds.begin(), kinds.end(), 'w') == 1, "waits at the end");
    sym::check(kinds.size() == 3 + 3 * shown.size(), "two frames and an arrow per pose term");
    std::vector<hu::Picture::Event> axes, arrows;
    for (const auto& e : pic->events)
    {
      if (e.kind == 't')
        trajectory_shown(e, p, r.x);
      if (e.kind == 'a')
        axes.push_back(e);
      if (e.kind == '>')
        arrows.push_back(e);
    }
    const bool all = axes.size() == 2 * shown.size() && arrows.size() == shown.size();
    sym::check(all, "two frames and an arrow per pose term");
    if (!all)
      sym::stop();
    for (std::size_t i = 0; i < shown.size(); ++i)
    {
      const VectorXd q = joints(p, r.x, shown[i].step);
      const Eigen::Isometry3d s = p.robot->pose("m", q) * so, t = p.robot->pose(shown[i].target, q) * to;
      hu::same_pose(axes[2 * i].pose, s, "source frame");
      hu::same_pose(axes[2 * i + 1].pose, t, "target frame");
      hu::same_point(arrows[i].from, s.translation(), "arrow from the source");
      hu::same_point(arrows[i].to, t.translation(), "arrow to the target");
    }
  }
}
