// Settings of the optimizers and of collision terms: equality field by field; configurations written out and read back.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_common/src/collision_types.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/optimizers.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/types.cpp
// @flag -DHAVE_BPMPD -I/verif/stubs/yaml
#include "sco_model.h"
#include <cereal/cereal.hpp>
#include <map>
#include <set>
#include <trajopt_common/logging.hpp>
#include <trajopt_common/yaml_extensions.h>
#include <trajopt_common/cereal_serialization.h>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sqp/types.h>

namespace
{
using trajopt_common::CollisionCoeffData;
using trajopt_common::TrajOptCollisionConfig;

/** visits every field of two settings: all get the same value, except the one with the chosen number */
struct Fields
{
  int differ;  // number of the field that may differ
  int n = 0;
  bool same = true, apart = false;
  std::string where;
  void real(double& a, double& b, const std::string& name)
  {
    a = b = sym::real_in(name, -100, 100);
    if (n++ != differ)
      return;
    where = name;
    b = sym::real_in(name + "_other", -100, 100);
    same = a == b;
    apart = a > b + 1e-3 || a < b - 1e-3;
  }
  template <typename T>
  void any(T& a, T& b, const std::string& name, const std::vector<T>& values)
  {
    // a switch is in either position while another setting differs
    const int i = n != differ && values.size() != 2 ? 0 : sym::choose(name, static_cast<int>(values.size()));
    const int j = n != differ ? i : sym::choose(name + "_other", static_cast<int>(values.size()));
    a = values[static_cast<std::size_t>(i)];
    b = values[static_cast<std::size_t>(j)];
    if (n++ != differ)
      return;
    where = name;
    same = i == j;
    apart = i != j;
  }
};
template <typename S>
void compare(const S& a, const S& b, const Fields& f)
{
  const bool eq = a == b, ne = a != b;
  sym::check(eq != ne, "unequal-is-not-equal");
  sym::check((b == a) == eq && (b != a) == ne, "symmetric");
  if (f.same)
  {
    sym::check(eq, "equal");
    sym::cover("equal");
  }
  if (f.apart)
  {
    sym::check(!eq, "different");
    sym::cover("different");
  }
  sym::require_cover("equal");
  sym::require_cover("different");
}
}  // namespace

SYM_HARNESS(sqp_parameters)
{
  sym::bound("every one of 17 fields, numbers in [-100, 100] or the defaults, differences within the tolerance (up to 1e-3) left open; every switch in either position");
  trajopt_sqp::SQPParameters a, b;
  sym::check(a == b && !(a != b), "defaults");
  Fields f{ sym::choose("field", 17) };
  f.real(a.improve_ratio_threshold, b.improve_ratio_threshold, "improve_ratio_threshold");
  f.real(a.min_trust_box_size, b.min_trust_box_size, "min_trust_box_size");
  f.real(a.min_approx_improve, b.min_approx_improve, "min_approx_improve");
  f.real(a.min_approx_improve_frac, b.min_approx_improve_frac, "min_approx_improve_frac");
  f.any(a.max_iterations, b.max_iterations, "max_iterations", { 50, 51, 0 });
  f.real(a.trust_shrink_ratio, b.trust_shrink_ratio, "trust_shrink_ratio");
  f.real(a.trust_expand_ratio, b.trust_expand_ratio, "trust_expand_ratio");
  f.real(a.cnt_tolerance, b.cnt_tolerance, "cnt_tolerance");
  f.real(a.max_merit_coeff_increases, b.max_merit_coeff_increases, "max_merit_coeff_increases");
  f.any(a.max_qp_solver_failures, b.max_qp_solver_failures, "max_qp_solver_failures", { 3, 4, 0 });
  f.real(a.merit_coeff_increase_ratio, b.merit_coeff_increase_ratio, "merit_coeff_increase_ratio");
  f.real(a.max_time, b.max_time, "max_time");
  f.real(a.initial_merit_error_coeff, b.initial_merit_error_coeff, "initial_merit_error_coeff");
  f.any(a.inflate_constraints_individually, b.inflate_constraints_individually, "inflate", { true, false });
  f.real(a.initial_trust_box_size, b.initial_trust_box_size, "initial_trust_box_size");
  f.any(a.log_results, b.log_results, "log_results", { true, false });
  f.any<std::string>(a.log_dir, b.log_dir, "log_dir", { "/tmp", "/var", "" });
  sym::check(f.n == 17, "fields");
  compare(a, b, f);
}

SYM_HARNESS(sco_parameters)
{
  sym::bound("every one of 18 fields, numbers in [-100, 100] or the defaults, differences within the tolerance (up to 1e-3) left open; every switch in either position");
  sco::BasicTrustRegionSQPParameters a, b;
  sym::check(a == b && !(a != b), "defaults");
  Fields f{ sym::choose("field", 18) };
  f.real(a.improve_ratio_threshold, b.improve_ratio_threshold, "improve_ratio_threshold");
  f.real(a.min_trust_box_size, b.min_trust_box_size, "min_trust_box_size");
  f.real(a.min_approx_improve, b.min_approx_improve, "min_approx_improve");
  f.real(a.min_approx_improve_frac, b.min_approx_improve_frac, "min_approx_improve_frac");
  f.any(a.max_iter, b.max_iter, "max_iter", { 50, 51, 0 });
  f.real(a.trust_shrink_ratio, b.trust_shrink_ratio, "trust_shrink_ratio");
  f.real(a.trust_expand_ratio, b.trust_expand_ratio, "trust_expand_ratio");
  f.real(a.cnt_tolerance, b.cnt_tolerance, "cnt_tolerance");
  f.real(a.max_merit_coeff_increases, b.max_merit_coeff_increases, "max_merit_coeff_increases");
  f.any(a.max_qp_solver_failures, b.max_qp_solver_failures, "max_qp_solver_failures", { 3, 4, 0 });
  f.real(a.merit_coeff_increase_ratio, b.merit_coeff_increase_ratio, "merit_coeff_increase_ratio");
  f.real(a.max_time, b.max_time, "max_time");
  f.real(a.initial_merit_error_coeff, b.initial_merit_error_coeff, "initial_merit_error_coeff");
  f.any(a.inflate_constraints_individually, b.inflate_constraints_individually, "inflate", { true, false });
  f.real(a.trust_box_size, b.trust_box_size, "trust_box_size");
  f.any(a.log_results, b.log_results, "log_results", { true, false });
  f.any<std::string>(a.log_dir, b.log_dir, "log_dir", { "/tmp", "/var", "" });
  f.any(a.num_threads, b.num_threads, "num_threads", { 0, 1, 4 });
  sym::check(f.n == 18, "fields");
  compare(a, b, f);
}

SYM_HARNESS(collision_config)
{
  sym::bound("every one of 6 settings and their parts, differences within the tolerance (up to 1e-3) left open; every switch in either position");
  TrajOptCollisionConfig a, b;
  sym::check(a == b && !(a != b), "defaults");
  Fields f{ sym::choose("field", 9) };
  f.any(a.enabled, b.enabled, "enabled", { true, false });
  f.real(a.contact_manager_config.margin, b.contact_manager_config.margin, "margin");
  f.real(a.collision_check_config.longest_valid_segment_length, b.collision_check_config.longest_valid_segment_length, "segment");
  f.any(a.collision_check_config.type,
        b.collision_check_config.type,
        "type",
        { tesseract::collision::CollisionEvaluatorType::DISCRETE, tesseract::collision::CollisionEvaluatorType::CONTINUOUS });
  double ca, cb, da, db;
  f.real(ca, cb, "coefficient");
  f.real(da, db, "pair_coefficient");
  a.collision_coeff_data.setDefaultCollisionCoeff(ca);
  b.collision_coeff_data.setDefaultCollisionCoeff(cb);
  std::string pa, pb;
  f.any<std::string>(pa, pb, "pair", { "y", "z", "" });
  if (!pa.empty())
    a.collision_coeff_data.setCollisionCoeff("x", pa, da);
  if (!pb.empty())
    b.collision_coeff_data.setCollisionCoeff("x", pb, db);
  f.real(a.collision_margin_buffer, b.collision_margin_buffer, "buffer");
  f.any(a.max_num_cnt, b.max_num_cnt, "max_num_cnt", { 3, 4, 0 });
  sym::check(f.n == 9, "fields");
  compare(a, b, f);
}

// ---------------------------------------------------------------- written out and read back
namespace
{
/** archives that keep the values they are given, in order, with the names of the fields of every object */
struct Item
{
  int kind = 0;  // 1 integer, 2 real, 3 text
  long long i = 0;
  double d = 0;
  std::string s;
};
struct Store
{
  std::vector<Item> items;
  std::vector<std::string> names;
};
class Save : public cereal::OutputArchive<Save>
{
public:
  explicit Save(Store& s) : OutputArchive<Save>(this), store(s) {}
  Store& store;
};
class Load : public cereal::InputArchive<Load>
{
public:
  explicit Load(Store& s) : InputArchive<Load>(this), store(s) {}
  Store& store;
  std::size_t at = 0, name = 0;
  const Item& next(int kind)
  {
    const bool ok = at < store.items.size() && store.items[at].kind == kind;
    sym::check(ok, "archive-order");
    if (!ok)
      sym::stop();
    return store.items[at++];
  }
};
}  // namespace
CEREAL_SETUP_ARCHIVE_TRAITS(Load, Save)
namespace
{
template <typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
void save(Save& ar, const T& v)
{
  Item i;
  i.kind = std::is_floating_point_v<T> ? 2 : 1;
  if constexpr (std::is_floating_point_v<T>)
    i.d = v;
  else
    i.i = static_cast<long long>(v);
  ar.store.items.push_back(i);
}
template <typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
void load(Load& ar, T& v)
{
  if constexpr (std::is_floating_point_v<T>)
    v = ar.next(2).d;
  else
    v = static_cast<T>(ar.next(1).i);
}
void save(Save& ar, const std::string& v)
{
  Item i;
  i.kind = 3;
  i.s = v;
  ar.store.items.push_back(i);
}
void load(Load& ar, std::string& v) { v = ar.next(3).s; }
template <typename T>
void save(Save& ar, const cereal::NameValuePair<T>& p)
{
  ar.store.names.push_back(p.name);
  ar(p.value);
}
template <typename T>
void load(Load& ar, cereal::NameValuePair<T>& p)
{
  // a text archive finds fields by their names
  sym::check(ar.name < ar.store.names.size() && ar.store.names[ar.name] == p.name, "archive-name");
  ++ar.name;
  ar(p.value);
}
template <typename T>
void save(Save& ar, const cereal::SizeTag<T>& t)
{
  ar(static_cast<std::uint64_t>(t.size));
}
template <typename T>
void load(Load& ar, cereal::SizeTag<T>& t)
{
  std::uint64_t n = 0;
  ar(n);
  t.size = n;
}

/** any settings: up to two pairs with coefficients, zero or not */
void fill(CollisionCoeffData& d, const std::string& n, bool swapped)
{
  d.setDefaultCollisionCoeff(sym::real_in(n + "default", -100, 100));
  const int pairs = sym::choose(n + "pairs", 3);
  for (int i = 0; i < pairs; ++i)
  {
    double c = 0;
    if (!sym::flag(n + "zero" + std::to_string(i)))
    {
      c = sym::real_in(n + "coeff" + std::to_string(i), -100, 100);
      sym::assume_lt(1e-3, hu::absv(c));
    }
    const std::string other = i == 0 ? "y" : "z";
    swapped ? d.setCollisionCoeff(other, "x", c) : d.setCollisionCoeff("x", other, c);
  }
}
void check_same(const CollisionCoeffData& have, const CollisionCoeffData& want)
{
  sym::check_eq(have.getDefaultCollisionCoeff(), want.getDefaultCollisionCoeff(), "default-coefficient");
  for (const char* a : { "x", "y", "z" })
    for (const char* b : { "x", "y", "z" })
      sym::check_eq(have.getCollisionCoeff(a, b), want.getCollisionCoeff(a, b), "pair-coefficient");
  sym::check(have.getCollisionCoeffPairData().size() == want.getCollisionCoeffPairData().size(), "pairs");
  sym::check(have.getPairsWithZeroCoeff() == want.getPairsWithZeroCoeff(), "zero-pairs");
  sym::check(have == want, "equal-coefficients");
}
void fill(TrajOptCollisionConfig& c, const std::string& n)
{
  c.enabled = sym::flag(n + "enabled");
  c.contact_manager_config.margin = sym::real_in(n + "margin", -1, 1);
  c.collision_check_config.longest_valid_segment_length = sym::real_in(n + "segment", 0, 1);
  c.collision_check_config.type = tesseract::collision::CollisionEvaluatorType::LVS_CONTINUOUS;
  c.collision_check_config.check_program_mode = tesseract::collision::CollisionCheckProgramType::END_ONLY;
  fill(c.collision_coeff_data, n, sym::flag(n + "swapped"));
  c.collision_margin_buffer = sym::real_in(n + "buffer", 0, 1);
  c.max_num_cnt = sym::choose(n + "max_num_cnt", 3) * 7;
}
void check_same(const TrajOptCollisionConfig& have, const TrajOptCollisionConfig& want)
{
  sym::check(have.enabled == want.enabled, "enabled");
  sym::check_eq(have.contact_manager_config.margin, want.contact_manager_config.margin, "margin");
  sym::check_eq(have.collision_check_config.longest_valid_segment_length,
                want.collision_check_config.longest_valid_segment_length,
                "segment-length");
  sym::check(have.collision_check_config.type == want.collision_check_config.type &&
                 have.collision_check_config.check_program_mode == want.collision_check_config.check_program_mode,
             "check-config");
  check_same(have.collision_coeff_data, want.collision_coeff_data);
  sym::check_eq(have.collision_margin_buffer, want.collision_margin_buffer, "buffer");
  sym::check(have.max_num_cnt == want.max_num_cnt, "max-num-cnt");
  sym::check(have == want, "equal");
}
}  // namespace

SYM_HARNESS(archived)
{
  sym::bound("collision settings with up to 2 pairs of coefficients, read into settings that held other values (up to 2 pairs)");
  TrajOptCollisionConfig a, b;
  fill(a, "");
  b.enabled = !a.enabled;
  if (sym::flag("overwritten"))
  {
    b.collision_coeff_data.setCollisionCoeff("y", "z", 0);
    b.collision_coeff_data.setCollisionCoeff("x", "z", 5);
    b.max_num_cnt = 9;
  }
  Store s;
  Save out(s);
  out(a);
  Load in(s);
  in(b);
  sym::check(in.at == s.items.size() && in.name == s.names.size(), "archive-complete");
  std::set<std::string> own;
  int level = 0;
  for (const std::string& n : s.names)  // fields of one object have names of their own
    if (n != "key" && n != "value" && n != "first" && n != "second")
      sym::check(own.insert(n).second || ++level > 100, "archive-names-distinct");
  check_same(b, a);
}

SYM_HARNESS(yaml)
{
  sym::bound("collision settings with up to 2 pairs of coefficients, encoded and decoded");
  TrajOptCollisionConfig a;
  fill(a, "");
  const YAML::Node n(a);
  check_same(n.as<TrajOptCollisionConfig>(), a);
  const YAML::Node c(a.collision_coeff_data);
  check_same(c.as<CollisionCoeffData>(), a.collision_coeff_data);
}

SYM_HARNESS(yaml_partial)
{
  sym::bound("any subset of the 8 fields of a collision configuration, each with any value; absent fields keep their defaults");
  const int given = sym::choose("given", 256);
  TrajOptCollisionConfig full, want;
  full.enabled = false;
  full.contact_manager_config.margin = sym::real_in("margin", -1, 1);
  full.collision_check_config.longest_valid_segment_length = sym::real_in("segment", 0, 1);
  full.collision_coeff_data.setDefaultCollisionCoeff(sym::real_in("default", -100, 100));
  full.collision_coeff_data.setCollisionCoeff("y", "x", 0);
  full.collision_margin_buffer = sym::real_in("buffer", 0, 1);
  full.max_num_cnt = 17;
  YAML::Node n(YAML::NodeType::Map);
  if (given & 1)
  {
    n["enabled"] = full.enabled;
    want.enabled = full.enabled;
  }
  if (given & 2)
  {
    n["contact_manager_config"] = full.contact_manager_config;
    want.contact_manager_config = full.contact_manager_config;
  }
  if (given & 4)
  {
    n["collision_check_config"] = full.collision_check_config;
    want.collision_check_config = full.collision_check_config;
  }
  if (given & 8)
  {
    n["collision_coeff_data"] = full.collision_coeff_data;
    want.collision_coeff_data = full.collision_coeff_data;
  }
  // the buffer goes by two names
  if (given & 16)
    n["collision_margin_buffer"] = full.collision_margin_buffer;
  else if (given & 32)
    n["buffer"] = full.collision_margin_buffer;
  if (given & 48)
    want.collision_margin_buffer = full.collision_margin_buffer;
  if (given & 64)
  {
    n["max_num_cnt"] = full.max_num_cnt;
    want.max_num_cnt = full.max_num_cnt;
  }
  if (given & 128)
  {
    const double s = sym::real_in("scale", 0, 10);
    n["scale_margins"] = s;
    want.contact_manager_config.scaleMargins(s);
  }
  check_same(n.as<TrajOptCollisionConfig>(), want);
}

SYM_HARNESS(yaml_malformed)
{
  sym::bound("configurations that are no map, pairs of other than 2 names, values of the wrong kind: refused");
  auto refused = [](const YAML::Node& n, auto like) {
    try
    {
      n.as<decltype(like)>();
    }
    catch (const YAML::Exception&)
    {
      return true;
    }
    return false;
  };
  YAML::Node sequence(YAML::NodeType::Sequence);
  sequence.push_back(1);
  sym::check(refused(sequence, TrajOptCollisionConfig()) && refused(sequence, CollisionCoeffData()), "no-map");
  sym::check(refused(YAML::Node(1.0), TrajOptCollisionConfig()) && refused(YAML::Node(1.0), CollisionCoeffData()), "no-map");
  YAML::Node coeff(YAML::NodeType::Map);
  const int names = sym::choose("names", 4);
  YAML::Node key(YAML::NodeType::Sequence);
  for (int i = 0; i < names; ++i)
    key.push_back(std::string(1, static_cast<char>('a' + i)));
  const double c = sym::real_in("coeff", -10, 10);
  YAML::Node pairs(YAML::NodeType::Map);
  pairs[key] = c;
  coeff["pair_coeff_data"] = pairs;
  if (names != 2)
    sym::check(refused(coeff, CollisionCoeffData()), "pair-names");
  else
    sym::check_eq(coeff.as<CollisionCoeffData>().getCollisionCoeff("b", "a"), c, "pair");
  const std::vector<const char*> fields{ "enabled", "collision_margin_buffer", "max_num_cnt", "scale_margins", "collision_coeff_data" };
  YAML::Node wrong(YAML::NodeType::Map);
  wrong[fields[static_cast<std::size_t>(sym::choose("field", 5))]] = std::string("nonsense");
  sym::check(refused(wrong, TrajOptCollisionConfig()), "wrong-kind");
}
