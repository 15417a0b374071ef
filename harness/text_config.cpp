// Textual configuration: JSON values to typed fields, solver names to back ends (all back ends configured; each back end's
// factory is replaced by one that records the call).
// @unit trajopt/src/json_marshal.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @flag -DHAVE_GUROBI -DHAVE_OSQP -DHAVE_QPOASES
#include "sco.h"
#include <json/json.h>
#include <cstdlib>
#include <trajopt/json_marshal.hpp>
using namespace sco;

static int g_created = -1;
static const ModelConfig* g_config = nullptr;
namespace sco
{
Model::Ptr createGurobiModel()
{
  g_created = ModelType::GUROBI;
  return nullptr;
}
Model::Ptr createOSQPModel(const ModelConfig::ConstPtr& c)
{
  g_created = ModelType::OSQP;
  g_config = c.get();
  return nullptr;
}
Model::Ptr createBPMPDModel()
{
  g_created = ModelType::BPMPD;
  return nullptr;
}
Model::Ptr createqpOASESModel()
{
  g_created = ModelType::QPOASES;
  return nullptr;
}
}  // namespace sco

namespace
{
struct Named
{
  const char* name;
  ModelType::Value value;
};
const Named NAMES[] = { { "GUROBI", ModelType::GUROBI },
                        { "OSQP", ModelType::OSQP },
                        { "QPOASES", ModelType::QPOASES },
                        { "BPMPD", ModelType::BPMPD },
                        { "AUTO_SOLVER", ModelType::AUTO_SOLVER } };
template <class F>
bool throws(F f)
{
  try
  {
    f();
  }
  catch (const std::runtime_error&)
  {
    return true;
  }
  catch (...)
  {
    sym::fail("error-type");
    return true;
  }
  return false;
}
struct Cfg : ModelConfig
{
};
}  // namespace

SYM_HARNESS(solver_names)
{
  sym::bound("every solver value and name, 4 kinds of invalid names, all four back ends configured");
  const Named n = NAMES[sym::choose("solver", 5)];
  ModelType t;
  sym::check(t == ModelType::AUTO_SOLVER, "default");
  switch (sym::choose("via", 4))
  {
    case 0: t = ModelType(n.value); break;
    case 1: t = ModelType(static_cast<int>(n.value)); break;
    case 2: t = ModelType(std::string(n.name)); break;
    default: t.fromJson(Json::Value(n.name));
  }
  sym::check(t == n.value && static_cast<int>(t) == static_cast<int>(n.value) && !(t != ModelType(n.value)), "value");
  std::stringstream ss;
  ss << t;
  sym::check(ss.str() == n.name, "name");
  sym::check(ModelType(ss.str()) == t, "round-trip");
  const char* bad[] = { "", "osqp", "OSQP ", "unknown" };
  const std::string b = bad[sym::choose("invalid", 4)];
  sym::check(throws([&] { ModelType m(b); }), "invalid-name");
  sym::check(throws([&] { t.fromJson(Json::Value(b)); }) && t == n.value, "invalid-json");
  const int out = 5 + sym::choose("out", 3);
  sym::check(throws([&] { std::stringstream s2; s2 << ModelType(out); }), "invalid-value");
}

SYM_HARNESS(solver_selection)
{
  sym::bound("every requested solver with no, every valid, and an invalid TRAJOPT_CONVEX_SOLVER");
  const std::vector<ModelType> av = availableSolvers();
  sym::check(av.size() == 4, "available");
  for (std::size_t i = 0; i < av.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      sym::check(av[i] != av[j] && av[i] != ModelType(ModelType::AUTO_SOLVER), "available");
  const Named n = NAMES[sym::choose("solver", 5)];
  const int env = sym::choose("env", 7);
  if (env == 0)
    unsetenv("TRAJOPT_CONVEX_SOLVER");
  else
    setenv("TRAJOPT_CONVEX_SOLVER", env == 6 ? "nonsense" : NAMES[env - 1].name, 1);
  g_created = -1;
  g_config = nullptr;
  auto cfg = std::make_shared<const Cfg>();
  const bool t = throws([&] { createModel(n.value, cfg); });
  if (n.value != ModelType::AUTO_SOLVER)
    sym::check(!t && g_created == n.value, "requested");
  else if (env == 6)
    sym::check(t && g_created == -1, "invalid-environment");
  else if (env == 0 || env == 5)
    sym::check(!t && g_created == static_cast<int>(av[0]), "automatic");
  else
    sym::check(!t && g_created == NAMES[env - 1].value, "environment");
  if (g_created == ModelType::OSQP)
    sym::check(g_config == cfg.get(), "configuration");
  unsetenv("TRAJOPT_CONVEX_SOLVER");
}

SYM_HARNESS(json_values)
{
  sym::bound("any doubles, vectors of up to 4 elements, one malformed element of any JSON type, present or missing fields");
  using namespace json_marshal;
  Json::Value list(Json::arrayValue);
  DblVec want;
  const int n = sym::choose("size", 6);
  for (int i = 0; i < n; ++i)
  {
    want.push_back(sym::real("x" + std::to_string(i)));
    list.append(Json::Value(want.back()));
  }
  Json::Value obj(Json::objectValue);
  const bool present = sym::flag("present");
  if (present)
    obj["list"] = list;
  obj["other"] = Json::Value("text");
  auto same = [&](const auto& v) {
    for (int i = 0; i < n; ++i)
      sym::check_eq(v[static_cast<std::size_t>(i)], want[static_cast<std::size_t>(i)], "element");
  };
  DblVec v{ 7, 8 };
  switch (sym::choose("kind", 6))
  {
    case 0:
    {
      const bool t = throws([&] { childFromJson(obj, v, "list"); });
      sym::check(t == !present, "missing-field");
      if (present)
      {
        sym::check(static_cast<int>(v.size()) == n, "size");
        same(v);
      }
      break;
    }
    case 1:
    {
      const DblVec df{ sym::real("default") };
      childFromJson(obj, v, "list", df);
      if (present)
      {
        sym::check(static_cast<int>(v.size()) == n, "size");
        same(v);
      }
      else
      {
        sym::check(v.size() == 1, "default");
        sym::check_eq(v[0], df[0], "default");
      }
      break;
    }
    case 2:
    {
      Eigen::Vector3d e(0, 0, 0);
      const bool t = throws([&] { fromJson(list, e); });
      sym::check(t == (n != 3), "fixed-size");
      if (!t)
        same(e);
      break;
    }
    case 3:
    {
      Eigen::Vector4d e(0, 0, 0, 0);
      const bool t = throws([&] { fromJson(list, e); });
      sym::check(t == (n != 4), "fixed-size");
      if (!t)
        same(e);
      break;
    }
    case 4:
    {
      int i = -1;
      bool b = false;
      std::string s;
      fromJson(Json::Value(41 + n), i);
      fromJson(Json::Value(n > 2), b);
      fromJson(obj["other"], s);
      sym::check(i == 41 + n && b == (n > 2) && s == "text", "scalar");
      break;
    }
    default:
    {
      // values that cannot be converted are reported the way every caller expects: std::runtime_error
      double d = 0;
      int i = 0;
      std::string s;
      switch (sym::choose("bad", 4))
      {
        case 0: sym::check(throws([&] { fromJson(Json::Value("abc"), d); }), "malformed"); break;
        case 1: sym::check(throws([&] { fromJson(Json::Value("abc"), i); }), "malformed"); break;
        case 2: sym::check(throws([&] { fromJson(list, s); }), "malformed"); break;
        default:
        {
          Json::Value l2 = list;
          l2.append(Json::Value("abc"));
          sym::check(throws([&] { fromJson(l2, v); }), "malformed");
        }
      }
    }
  }
}
