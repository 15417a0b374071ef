// Optimisation variables: nodes, indices, bounds, round trips.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_observer.cpp
// @unit trajopt_ifopt/src/utils/trajopt_utils.cpp
#include "nodes.h"
#include <trajopt_ifopt/utils/trajopt_utils.h>
#include <trajopt_ifopt/variable_sets/nodes_observer.h>
#include <tesseract/common/joint_state.h>
using namespace trajopt_ifopt;
using hu::INF;

SYM_HARNESS(layout)
{
  const int maxnodes = sym::thorough() ? 3 : 2;
  sym::bound("1.." + std::to_string(maxnodes) + " nodes of 1..2 variables, each scalar or a 2-vector, symbolic limits and initial values");
  int nn = 1 + sym::choose("nodes", maxnodes);
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> vars;
  std::vector<Eigen::Index> at;
  std::vector<double> init, lo, hi;
  std::vector<std::string> ids;
  std::vector<std::vector<std::string>> varnames;
  std::vector<int> node_of, node_size(nn, 0);
  int n = 0;
  for (int i = 0; i < nn; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    int nv = 1 + sym::choose("vars" + std::to_string(i), 2);
    for (int k = 0; k < nv; ++k)
    {
      std::string id = "n" + std::to_string(i) + "v" + std::to_string(k);
      int len = 1 + sym::choose(id + ".len", 2);
      std::vector<Bounds> b;
      Eigen::VectorXd v(len);
      std::vector<std::string> names;
      for (int j = 0; j < len; ++j)
      {
        std::string e = id + "_" + std::to_string(j);
        lo.push_back(sym::real_in(e + ".lo", -100, 100));
        hi.push_back(lo.back() + sym::real_in(e + ".w", 0, 100));
        // initial values inside the limits; values outside are covered by the clamping property
        v(j) = lo.back() + sym::real_in(e + ".t", 0, 1) * (hi.back() - lo.back());
        init.push_back(v(j));
        b.emplace_back(lo.back(), hi.back());
        names.push_back(e);
      }
      ids.push_back("v" + std::to_string(k));
      varnames.push_back(len == 1 ? std::vector<std::string>{ ids.back() } : names);
      at.push_back(n);
      node_of.push_back(i);
      if (len == 1)
        vars.push_back(node->addVar("v" + std::to_string(k), v(0), b[0]));
      else
        vars.push_back(node->addVar("v" + std::to_string(k), names, v, b));
      sym::check(vars.back()->size() == len && vars.back()->bounds().size() == static_cast<std::size_t>(len), "var-size");
      n += len;
      node_size[i] += len;
      sym::check(node->hasVar("v" + std::to_string(k)) && node->getVar("v" + std::to_string(k)) == vars.back(), "lookup");
    }
    sym::check(node->size() == node_size[i], "node-size");
    nodes.push_back(std::move(node));
  }
  NodesVariables nv("nv", std::move(nodes));
  sym::check(nv.getRows() == n && nv.getDim() == n && static_cast<int>(nv.getNodes().size()) == nn, "rows");
  const Eigen::VectorXd x0 = nv.getValues();
  const std::vector<Bounds> b = nv.getBounds();
  sym::check(x0.size() == n && static_cast<int>(b.size()) == n, "dims");
  for (int i = 0; i < n; ++i)
  {
    sym::check_eq(x0(i), init[i], "initial-value");
    sym::check_eq(b[i].getLower(), lo[i], "lower");
    sym::check_eq(b[i].getUpper(), hi[i], "upper");
  }
  for (std::size_t k = 0; k < vars.size(); ++k)
  {
    sym::check(vars[k]->getIndex() == at[k], "index");
    sym::check(vars[k]->name() == varnames[k] && vars[k]->getIdentifier() == ids[k], "names");
    sym::check(vars[k]->getParent() != nullptr && vars[k]->getParent() == nv.getNode(node_of[k]).get(), "parent");
  }
  const std::size_t h0 = nv.getHash();
  const Eigen::VectorXd x = hu::vec("x", n);
  nv.setVariables(x);
  const Eigen::VectorXd x1 = nv.getValues();
  for (int i = 0; i < n; ++i)
    sym::check_eq(x1(i), x(i), "round-trip");
  for (std::size_t k = 0; k < vars.size(); ++k)
    for (Eigen::Index j = 0; j < vars[k]->size(); ++j)
      sym::check_eq(vars[k]->value()(j), x(at[k] + j), "var-value");
  int off = 0;
  for (int i = 0; i < nn; ++i)
  {
    const Eigen::VectorXd v = nv.getNode(i)->getValues();
    sym::check(v.size() == node_size[i], "node-values-size");
    for (Eigen::Index j = 0; j < v.size(); ++j)
      sym::check_eq(v(j), x(off + j), "node-value");
    off += node_size[i];
  }
  // the stub hash is injective per call, so a stale hash shows as an unchanged one
  sym::check(nv.getHash() != h0, "hash-refreshed");
}

SYM_HARNESS(trajectory)
{
  sym::bound("1..3 steps, 1..2 joints, every layout");
  int steps = 1 + sym::choose("steps", 3), dof = 1 + sym::choose("dof", 2);
  hu::Traj t = hu::traj("x", steps, dof, sym::choose("layout", 3));
  const auto arr = toTrajArray(t.pos);
  const auto jt = toJointTrajectory(t.pos);
  sym::check(arr.rows() == steps && arr.cols() == dof && static_cast<int>(jt.states.size()) == steps, "dims");
  for (int i = 0; i < steps; ++i)
    for (int j = 0; j < dof; ++j)
    {
      sym::check_eq(arr(i, j), t.x(t.col[i] + j), "array-value");
      sym::check_eq(jt.states[i].position(j), t.x(t.col[i] + j), "state-value");
      sym::check(jt.states[i].joint_names[j] == "j" + std::to_string(j), "joint-name");
    }
}

namespace
{
struct Watch : NodesObserver
{
  Watch(const std::shared_ptr<NodesVariables>& s, std::vector<std::shared_ptr<const Var>> v) : NodesObserver(s), vars(std::move(v)) {}
  void updateNodes() override
  {
    ++calls;
    seen.clear();
    for (const auto& v : vars)
      for (Eigen::Index j = 0; j < v->size(); ++j)
        seen.push_back(v->value()(j));
    auto s = subject_.lock();
    if (s)
      whole = s->getValues();
  }
  std::vector<std::shared_ptr<const Var>> vars;
  std::vector<double> seen;
  Eigen::VectorXd whole;
  int calls{ 0 };
};
}  // namespace

SYM_HARNESS(observers)
{
  sym::bound("1..2 observers, 3 updates, an observer ends in between");
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> vars;
  for (int i = 0; i < 2; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    vars.push_back(node->addVar("a", 0.5, Bounds(-1, 1)));
    vars.push_back(node->addVar("b", { "x", "y" }, Eigen::VectorXd::Zero(2), { Bounds(-1, 1), Bounds(-1, 1) }));
    nodes.push_back(std::move(node));
  }
  auto nv = std::make_shared<NodesVariables>("nv", std::move(nodes));
  std::vector<std::unique_ptr<Watch>> w;
  std::vector<int> expect;
  const int total = 1 + sym::choose("observers", 2);
  const int gone = sym::choose("ends", 3);  // 0: none, else after that many updates the first observer ends
  for (int i = 0; i < total; ++i)
    w.push_back(std::make_unique<Watch>(nv, vars));
  for (int k = 0; k < 3; ++k)
  {
    if (gone == k && k > 0)
      w[0].reset();
    const Eigen::VectorXd x = hu::vec("x" + std::to_string(k), 6);
    nv->setVariables(x);
    for (const auto& o : w)
    {
      if (!o)
        continue;
      sym::check(o->calls == k + 1, "each-update-once");
      sym::check(o->seen.size() == 6 && o->whole.size() == 6, "all-values");
      for (int j = 0; j < 6 && j < static_cast<int>(o->seen.size()); ++j)
      {
        sym::check_eq(o->seen[j], x(j), "new-variable-values");
        sym::check_eq(o->whole(j), x(j), "new-vector");
      }
    }
  }
  std::weak_ptr<NodesVariables> weak = nv;
  nv.reset();
  sym::check(weak.expired(), "no-cycle");
  sym::check(hu::throws([&] { Watch late(weak.lock(), vars); }), "subject-gone-refused");
}

SYM_HARNESS(variable_refusals)
{
  sym::bound("2-vectors with one name, value or limit too many or too few");
  const int kind = sym::choose("kind", 5);
  std::vector<std::string> names{ "x", "y" };
  std::vector<Bounds> b(2, Bounds(-1, 1));
  Eigen::VectorXd v = Eigen::VectorXd::Zero(2);
  if (kind == 1)
    names.push_back("z");
  if (kind == 2)
    b.pop_back();
  if (kind == 3)
    v = Eigen::VectorXd::Zero(3);
  if (kind == 4)
    v = Eigen::VectorXd::Zero(1);
  Node node("n");
  sym::check(hu::throws([&] { node.addVar("v", names, v, b); }) == (kind != 0), "sizes");
  sym::check(!node.hasVar("w") && hu::throws([&] { node.getVar("w"); }), "unknown-name");
}
