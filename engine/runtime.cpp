// Symbolic runtime: term store, path exploration by fork(), solver interface.  See DESIGN.md, "Engine".
#include "sym.h"
#include <atomic>
#include <execinfo.h>
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <cxxabi.h>
#include <z3.h>

using Rat = boost::multiprecision::cpp_rational;
using Int = boost::multiprecision::cpp_int;

// ---------------------------------------------------------------------------------------------------------------------
// shared state
// ---------------------------------------------------------------------------------------------------------------------
namespace
{
constexpr int MAXLABEL = 1024;
constexpr int MAXFN = 8192;
struct Label
{
  char name[112];
  std::atomic<int> used;
  std::atomic<long> reached, discharged_trivial, discharged_solver, violated, unknown;
};
struct FnEntry
{
  char name[300];
  std::atomic<int> used;
};
struct Shared
{
  std::atomic<long> paths, forks, decisions, queries, sat, unsat, unknown, solver_us, external, maxdepth, killed;
  std::atomic<int> tokens;
  std::atomic<int> timedout, unsupported, boundexceeded, engineerror, stopping;
  std::atomic<long> samples;
  std::atomic<long> linear_q, nonlinear_q, fp_q;
  std::atomic<long> infeasible_end;
  double deadline;
  char unsupported_msg[400];
  Label check[MAXLABEL];
  Label cov[MAXLABEL];
  FnEntry fns[MAXFN];
  char bounds[4096];
};
Shared* S = nullptr;
int outfd = -1;
std::string harness_name;
bool opt_fp = false;
bool opt_thorough = false;
long opt_maxdepth = 4000;
long opt_samples = 12;
unsigned opt_rlimit = 20000000;
bool dumpq = false;

double now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

template <class T>
T* table(T* t, int n, const char* name, size_t cap)
{
  size_t h = std::hash<std::string>()(name);
  for (int i = 0; i < n; ++i)
  {
    T& e = t[(h + static_cast<size_t>(i)) % static_cast<size_t>(n)];
    int expect = 0;
    if (e.used.load() == 0 && e.used.compare_exchange_strong(expect, 1))
    {
      std::strncpy(e.name, name, cap - 1);
      e.used.store(2);
      return &e;
    }
    while (e.used.load() == 1)
      ;
    if (std::strncmp(e.name, name, cap - 1) == 0)
      return &e;
  }
  return &t[0];
}
Label* checkLabel(const std::string& l) { return table(S->check, MAXLABEL, l.c_str(), sizeof(S->check[0].name)); }
Label* coverLabel(const std::string& l) { return table(S->cov, MAXLABEL, l.c_str(), sizeof(S->cov[0].name)); }

// ---------------------------------------------------------------------------------------------------------------------
// process tree
// ---------------------------------------------------------------------------------------------------------------------
std::vector<pid_t> children;
bool have_token = true;
long depth = 0;

void reap(pid_t p)
{
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
  {
    S->killed++;
    S->engineerror = 1;
  }
}

[[noreturn]] void finishProcess()
{
  if (have_token)
  {
    S->tokens++;
    have_token = false;
  }
  for (pid_t p : children)
    reap(p);
  _exit(0);
}

void emit(const std::string& s)
{
  std::string t = s + "\n";
  ssize_t r = write(outfd, t.data(), t.size());
  (void)r;
}

std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (static_cast<unsigned char>(c) < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}

[[noreturn]] void unsupported(const std::string& msg)
{
  if (S->unsupported.exchange(1) == 0)
    std::strncpy(S->unsupported_msg, msg.c_str(), sizeof(S->unsupported_msg) - 1);
  if (std::getenv("SYM_ABORT_UNSUPPORTED") != nullptr)
  {
    std::cerr << "UNSUPPORTED " << msg << std::endl;
    signal(SIGABRT, SIG_DFL);
    abort();
  }
  finishProcess();
}

void checkDeadline()
{
  if (S->stopping.load() != 0)
    finishProcess();
  if (now() > S->deadline)
  {
    S->timedout = 1;
    finishProcess();
  }
}

// ---------------------------------------------------------------------------------------------------------------------
// terms (real mode): polynomials with rational coefficients over atoms, hash-consed
// ---------------------------------------------------------------------------------------------------------------------
using AtomId = uint32_t;
using MonoId = uint32_t;
using TermId = uint32_t;
using Mono = std::vector<std::pair<AtomId, uint32_t>>;
using Poly = std::vector<std::pair<MonoId, Rat>>;

enum Rel { LT = 0, LE = 1, EQ = 2, NE = 3 };
struct Cond
{
  Rel rel;
  TermId p;
};

struct Atom
{
  enum Kind { INPUT, ITE, QUOT, SQRT, SIN, COS } kind;
  std::string name;
  Cond c{};
  TermId a = 0, b = 0;
  Z3_ast z = nullptr;
};

std::vector<Atom> atoms;
std::vector<Mono> monos;
std::map<Mono, MonoId> monoIndex;
std::vector<Poly> polys;
std::vector<std::vector<AtomId>> polyAtoms;
std::unordered_map<size_t, std::vector<TermId>> polyIndex;
std::map<std::string, AtomId> atomIndex;

Z3_context z = nullptr;
Z3_sort realSort = nullptr, fpSort = nullptr, intSort = nullptr;
Z3_ast rne = nullptr;
std::vector<Z3_ast> zpoly;     // cached z3 translation of polys
std::vector<Z3_ast> fpterms;   // fp mode terms
std::unordered_map<unsigned, TermId> fpIndex;

constexpr uint64_t BOX = 0x7FF4000000000000ULL;
constexpr uint64_t BOXQ = 0x7FFC000000000000ULL;
constexpr uint64_t MASK = 0xFFFC000000000000ULL;
constexpr uint64_t UNINIT = BOX | 0x3FFFFDEADBEEFULL;

uint64_t bits(double d)
{
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
double frombits(uint64_t u)
{
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}
inline bool isBox(double d)
{
  uint64_t u = bits(d);
  uint64_t t = u & MASK;
  if (__builtin_expect(t == BOX, 0))
    return true;
  if (__builtin_expect((u & 0x7FFC000000000000ULL) == BOXQ && (u & 0x3FFFFFFFFFFFFULL) != 0, 0))
  {
    // a quieted or sign-flipped box: some uninstrumented code did arithmetic on a symbolic value
    uint64_t id = u & 0x3FFFFFFFFFFFFULL;
    if (id < 0x100000000ULL && id < (opt_fp ? fpterms.size() : polys.size()) + 1)
      unsupported("arithmetic on a symbolic value in uninstrumented code");
  }
  if (__builtin_expect((u & MASK) == (0x8000000000000000ULL | BOX), 0))
    unsupported("sign manipulation of a symbolic value in uninstrumented code");
  return false;
}
double mkbox(TermId t) { return frombits(BOX | (static_cast<uint64_t>(t) + 1)); }

size_t hashPoly(const Poly& p)
{
  size_t h = p.size();
  for (const auto& m : p)
  {
    h = h * 1000003 + m.first;
    h = h * 1000003 + static_cast<size_t>(static_cast<long long>(boost::multiprecision::numerator(m.second) % Int(1000000007)));
    h = h * 1000003 + static_cast<size_t>(static_cast<long long>(boost::multiprecision::denominator(m.second) % Int(1000000007)));
  }
  return h;
}

TermId internPoly(const Poly& p)
{
  size_t h = hashPoly(p);
  auto& v = polyIndex[h];
  for (TermId t : v)
    if (polys[t] == p)
      return t;
  polys.push_back(p);
  zpoly.push_back(nullptr);
  std::set<AtomId> as;
  for (const auto& m : p)
    for (const auto& f : monos[m.first])
      as.insert(f.first);
  polyAtoms.emplace_back(as.begin(), as.end());
  TermId t = static_cast<TermId>(polys.size() - 1);
  v.push_back(t);
  return t;
}

MonoId internMono(const Mono& m)
{
  auto it = monoIndex.find(m);
  if (it != monoIndex.end())
    return it->second;
  monos.push_back(m);
  MonoId id = static_cast<MonoId>(monos.size() - 1);
  monoIndex[m] = id;
  return id;
}

Rat ratOf(double d)
{
  int e = 0;
  double m = std::frexp(d, &e);
  long long mi = static_cast<long long>(std::ldexp(m, 53));
  e -= 53;
  Rat r(mi);
  if (e > 0)
    r *= Rat(Int(1) << e);
  else if (e < 0)
    r /= Rat(Int(1) << (-e));
  return r;
}
double toDouble(const Rat& r) { return static_cast<double>(r); }

bool isConst(const Poly& p) { return p.empty() || (p.size() == 1 && p[0].first == 0); }
Rat constOf(const Poly& p) { return p.empty() ? Rat(0) : p[0].second; }

Poly constPoly(const Rat& r)
{
  Poly p;
  if (r != 0)
    p.emplace_back(0, r);
  return p;
}

Poly addScaled(const Poly& a, const Poly& b, const Rat& s)
{
  Poly r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size())
  {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first)
    {
      r.emplace_back(b[j].first, b[j].second * s);
      ++j;
    }
    else
    {
      Rat c = a[i].second + b[j].second * s;
      if (c != 0)
        r.emplace_back(a[i].first, c);
      ++i;
      ++j;
    }
  }
  return r;
}
Poly scale(const Poly& a, const Rat& s)
{
  Poly r;
  if (s == 0)
    return r;
  r = a;
  for (auto& m : r)
    m.second *= s;
  return r;
}
Poly mulPoly(const Poly& a, const Poly& b);

// rewriting of monomials: sqrt(p)^2 -> p, sin^2 -> 1 - cos^2
Poly normMono(const Mono& m, const Rat& c)
{
  for (size_t k = 0; k < m.size(); ++k)
  {
    const Atom& a = atoms[m[k].first];
    if (m[k].second >= 2 && (a.kind == Atom::SQRT || a.kind == Atom::SIN))
    {
      Mono rest = m;
      if (rest[k].second == 2)
        rest.erase(rest.begin() + static_cast<long>(k));
      else
        rest[k].second -= 2;
      Poly rp = normMono(rest, c);
      Poly sub;
      if (a.kind == Atom::SQRT)
        sub = polys[a.a];
      else
      {
        AtomId co = atomIndex.at("cos(" + std::to_string(a.a) + ")");
        sub = constPoly(Rat(1));
        Poly q;
        q.emplace_back(internMono(Mono{ { co, 2u } }), Rat(1));
        sub = addScaled(sub, q, Rat(-1));
      }
      return mulPoly(rp, sub);
    }
  }
  Poly p;
  p.emplace_back(internMono(m), c);
  return p;
}

Poly mulPoly(const Poly& a, const Poly& b)
{
  if (a.size() * b.size() > 20000)
    unsupported("polynomial too large");
  std::map<MonoId, Rat> acc;
  for (const auto& x : a)
    for (const auto& y : b)
    {
      const Mono& mx = monos[x.first];
      const Mono& my = monos[y.first];
      Mono m;
      size_t i = 0, j = 0;
      bool special = false;
      while (i < mx.size() || j < my.size())
      {
        if (j == my.size() || (i < mx.size() && mx[i].first < my[j].first))
          m.push_back(mx[i++]);
        else if (i == mx.size() || my[j].first < mx[i].first)
          m.push_back(my[j++]);
        else
        {
          m.emplace_back(mx[i].first, mx[i].second + my[j].second);
          const auto k = atoms[mx[i].first].kind;
          if (k == Atom::SQRT || k == Atom::SIN)
            special = true;
          ++i;
          ++j;
        }
      }
      Rat c = x.second * y.second;
      if (special)
      {
        for (const auto& t : normMono(m, c))
          acc[t.first] += t.second;
      }
      else
        acc[internMono(m)] += c;
    }
  Poly r;
  for (auto& e : acc)
    if (e.second != 0)
      r.emplace_back(e.first, e.second);
  return r;
}

Poly atomPoly(AtomId a)
{
  Poly p;
  p.emplace_back(internMono(Mono{ { a, 1u } }), Rat(1));
  return p;
}

AtomId newAtom(const std::string& key, Atom a)
{
  auto it = atomIndex.find(key);
  if (it != atomIndex.end())
    return it->second;
  AtomId id = static_cast<AtomId>(atoms.size());
  std::string zn = a.kind == Atom::INPUT ? a.name : ("a!" + std::to_string(id));
  a.z = Z3_mk_const(z, Z3_mk_string_symbol(z, zn.c_str()), realSort);
  Z3_inc_ref(z, a.z);
  atoms.push_back(a);
  atomIndex[key] = id;
  return id;
}

AtomId inputAtom(const std::string& name)
{
  Atom a;
  a.kind = Atom::INPUT;
  a.name = name;
  return newAtom("in:" + name, a);
}

// a double that is not a box -> Poly; infinities and NaN must be handled before
Poly polyOf(double d)
{
  if (isBox(d))
  {
    if (bits(d) == UNINIT)
      return atomPoly(inputAtom("uninit"));
    uint64_t id = (bits(d) & 0x3FFFFFFFFFFFFULL) - 1;
    if (id >= polys.size())
      unsupported("corrupted symbolic value");
    return polys[id];
  }
  return constPoly(ratOf(d));
}

double box(const Poly& p)
{
  if (isConst(p))
  {
    Rat c = constOf(p);
    double d = toDouble(c);
    if (std::isfinite(d) && ratOf(d) == c)
      return d;
  }
  return mkbox(internPoly(p));
}

// ---- z3 translation -------------------------------------------------------------------------------------------------
Z3_ast zrat(const Rat& r)
{
  std::string s = r.str();
  return Z3_mk_numeral(z, s.c_str(), realSort);
}

Z3_ast zPoly(TermId t)
{
  if (zpoly[t] != nullptr)
    return zpoly[t];
  const Poly p = polys[t];
  std::vector<Z3_ast> sum;
  for (const auto& m : p)
  {
    std::vector<Z3_ast> f;
    if (m.second != 1 || monos[m.first].empty())
      f.push_back(zrat(m.second));
    for (const auto& a : monos[m.first])
      for (uint32_t k = 0; k < a.second; ++k)
        f.push_back(atoms[a.first].z);
    sum.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(z, static_cast<unsigned>(f.size()), f.data()));
  }
  Z3_ast r = sum.empty() ? zrat(Rat(0)) : (sum.size() == 1 ? sum[0] : Z3_mk_add(z, static_cast<unsigned>(sum.size()), sum.data()));
  Z3_inc_ref(z, r);
  zpoly[t] = r;
  return r;
}
Z3_ast zCond(const Cond& c)
{
  Z3_ast p = zPoly(c.p);
  Z3_ast zero = zrat(Rat(0));
  switch (c.rel)
  {
    case LT: return Z3_mk_lt(z, p, zero);
    case LE: return Z3_mk_le(z, p, zero);
    case EQ: return Z3_mk_eq(z, p, zero);
    default: return Z3_mk_not(z, Z3_mk_eq(z, p, zero));
  }
}

// ---- conditions -----------------------------------------------------------------------------------------------------
Cond mkCond(Rel r, const Poly& p)
{
  // scale so that the first non-constant coefficient has magnitude one (sign one for EQ/NE)
  Rat lead(0);
  for (const auto& m : p)
    if (m.first != 0)
    {
      lead = m.second;
      break;
    }
  Poly q = p;
  if (lead != 0)
  {
    Rat s = (r == EQ || r == NE) ? Rat(1) / lead : Rat(1) / (lead < 0 ? Rat(-lead) : lead);
    q = scale(p, s);
  }
  return Cond{ r, internPoly(q) };
}
Cond negate(const Cond& c)
{
  switch (c.rel)
  {
    case LT: return mkCond(LE, scale(polys[c.p], Rat(-1)));
    case LE: return mkCond(LT, scale(polys[c.p], Rat(-1)));
    case EQ: return Cond{ NE, c.p };
    default: return Cond{ EQ, c.p };
  }
}
std::vector<Cond> pc;
std::set<std::pair<int, TermId>> pcset;
std::map<TermId, std::pair<int, int>> dummy;

bool has(Rel r, TermId t) { return pcset.count({ r, t }) != 0; }

// 1 true, 0 false, -1 not known syntactically
int quick(const Cond& c)
{
  const Poly& p = polys[c.p];
  if (isConst(p))
  {
    Rat v = constOf(p);
    switch (c.rel)
    {
      case LT: return v < 0;
      case LE: return v <= 0;
      case EQ: return v == 0;
      default: return v != 0;
    }
  }
  // canonical sign variants
  TermId pos = mkCond(EQ, p).p;
  TermId neg = internPoly(scale(polys[c.p], Rat(-1)));
  TermId me = c.p;
  switch (c.rel)
  {
    case LT:
      if (has(LT, me))
        return 1;
      if (has(LE, neg) || has(LT, neg) || has(EQ, pos))
        return 0;
      break;
    case LE:
      if (has(LT, me) || has(LE, me) || has(EQ, pos))
        return 1;
      if (has(LT, neg))
        return 0;
      break;
    case EQ:
      if (has(EQ, pos))
        return 1;
      if (has(NE, pos) || has(LT, me) || has(LT, neg))
        return 0;
      break;
    default:
      if (has(EQ, pos))
        return 0;
      if (has(NE, pos) || has(LT, me) || has(LT, neg))
        return 1;
  }
  return -1;
}

// fp mode path condition
std::vector<Z3_ast> fpc;
std::unordered_map<unsigned, int> fpKnown;

// ---- solver ---------------------------------------------------------------------------------------------------------
struct Slice
{
  std::set<AtomId> as;
  std::vector<Z3_ast> asserts;
  bool linear = true;
};

void noteDegree(Slice& s, TermId t)
{
  for (const auto& m : polys[t])
  {
    uint32_t d = 0;
    for (const auto& f : monos[m.first])
      d += f.second;
    if (d > 1)
      s.linear = false;
  }
}

// atoms a term depends on, directly or through the definition of another atom
const std::vector<AtomId>& support(TermId t)
{
  static std::vector<std::vector<AtomId>> memo;
  static std::vector<char> done;
  if (memo.size() < polys.size())
  {
    memo.resize(polys.size() + 1024);
    done.resize(memo.size(), 0);
  }
  if (done[t] != 0)
    return memo[t];
  std::set<AtomId> out;
  std::vector<AtomId> work(polyAtoms[t].begin(), polyAtoms[t].end());
  while (!work.empty())
  {
    AtomId a = work.back();
    work.pop_back();
    if (!out.insert(a).second)
      continue;
    const Atom& at = atoms[a];
    auto push = [&](TermId u) { work.insert(work.end(), polyAtoms[u].begin(), polyAtoms[u].end()); };
    if (at.kind == Atom::INPUT)
      continue;
    push(at.a);
    if (at.kind == Atom::ITE || at.kind == Atom::QUOT)
      push(at.b);
    if (at.kind == Atom::ITE)
      push(at.c.p);
  }
  memo[t].assign(out.begin(), out.end());
  done[t] = 1;
  return memo[t];
}

void closeSlice(Slice& s, const std::vector<TermId>& seed, bool everything)
{
  std::vector<AtomId> work;
  auto addTerm = [&](TermId t) {
    noteDegree(s, t);
    for (AtomId a : polyAtoms[t])
      if (s.as.insert(a).second)
        work.push_back(a);
  };
  for (TermId t : seed)
    addTerm(t);
  std::vector<char> used(pc.size(), 0);
  bool changed = true;
  while (changed)
  {
    changed = false;
    while (!work.empty())
    {
      AtomId a = work.back();
      work.pop_back();
      const Atom at = atoms[a];
      switch (at.kind)
      {
        case Atom::INPUT: break;
        case Atom::ITE:
          addTerm(at.c.p);
          addTerm(at.a);
          addTerm(at.b);
          s.asserts.push_back(Z3_mk_eq(z, at.z, Z3_mk_ite(z, zCond(at.c), zPoly(at.a), zPoly(at.b))));
          break;
        case Atom::QUOT:
        {
          addTerm(at.a);
          addTerm(at.b);
          s.linear = false;
          Z3_ast f[2] = { at.z, zPoly(at.b) };
          s.asserts.push_back(Z3_mk_eq(z, Z3_mk_mul(z, 2, f), zPoly(at.a)));
          break;
        }
        case Atom::SQRT:
        {
          addTerm(at.a);
          s.linear = false;
          Z3_ast f[2] = { at.z, at.z };
          s.asserts.push_back(Z3_mk_eq(z, Z3_mk_mul(z, 2, f), zPoly(at.a)));
          s.asserts.push_back(Z3_mk_ge(z, at.z, zrat(Rat(0))));
          break;
        }
        case Atom::SIN:
        case Atom::COS:
          s.asserts.push_back(Z3_mk_ge(z, at.z, zrat(Rat(-1))));
          s.asserts.push_back(Z3_mk_le(z, at.z, zrat(Rat(1))));
          {
            std::string other = (at.kind == Atom::SIN ? "cos(" : "sin(") + std::to_string(at.a) + ")";
            AtomId o = atomIndex.at(other);
            if (s.as.insert(o).second)
              work.push_back(o);
            s.linear = false;
            Z3_ast f[2] = { at.z, at.z };
            Z3_ast g[2] = { atoms[o].z, atoms[o].z };
            Z3_ast h[2] = { Z3_mk_mul(z, 2, f), Z3_mk_mul(z, 2, g) };
            s.asserts.push_back(Z3_mk_eq(z, Z3_mk_add(z, 2, h), zrat(Rat(1))));
          }
          break;
      }
    }
    for (size_t i = 0; i < pc.size(); ++i)
    {
      if (used[i])
        continue;
      bool touch = everything;
      if (!touch)
        for (AtomId a : support(pc[i].p))
          if (s.as.count(a) != 0)
          {
            touch = true;
            break;
          }
      if (touch)
      {
        used[i] = 1;
        addTerm(pc[i].p);
        s.asserts.push_back(zCond(pc[i]));
        changed = true;
      }
    }
    if (!work.empty())
      changed = true;
  }
}

std::string runExternal(const std::string& smt, int seconds)
{
  S->external++;
  char fn[64] = "/tmp/symqXXXXXX";
  int fd = mkstemp(fn);
  if (fd < 0)
    return "unknown";
  std::string text = smt;
  ssize_t r = write(fd, text.data(), text.size());
  (void)r;
  close(fd);
  std::string ans = "unknown";
  const std::string cmds[2] = { "timeout " + std::to_string(seconds) + " cvc5 --lang smt2 " + std::string(fn) + " 2>/dev/null",
                                "timeout " + std::to_string(seconds) + " z3-new " + std::string(fn) + " 2>/dev/null" };
  for (const auto& c : cmds)
  {
    FILE* p = popen(c.c_str(), "r");
    if (p == nullptr)
      continue;
    char line[256];
    std::string got;
    bool err = false;
    while (fgets(line, sizeof(line), p) != nullptr)
    {
      std::string l(line);
      if (l.find("error") != std::string::npos)
        err = true;
      if (l == "sat\n" || l == "unsat\n")
        got = l.substr(0, l.size() - 1);
    }
    pclose(p);
    if (!err && !got.empty())
    {
      ans = got;
      break;
    }
  }
  unlink(fn);
  return ans;
}

// in a child process with a time limit: some nonlinear queries stay for long in parts of z3 that do not watch its limits
int isolatedCheck(Z3_solver s, unsigned seconds)
{
  std::cout.flush();
  pid_t p = fork();
  if (p < 0)
    return -1;
  if (p == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGALRM, SIG_DFL);
    alarm(seconds);
    Z3_lbool r = Z3_solver_check(z, s);
    _exit(r == Z3_L_TRUE ? 11 : (r == Z3_L_FALSE ? 10 : 12));
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (!WIFEXITED(st))
    return -1;
  return WEXITSTATUS(st) == 11 ? 1 : (WEXITSTATUS(st) == 10 ? 0 : -1);
}

// the code under test may have changed the global locale, which is not the solver's
struct OwnLocale
{
  std::locale theirs;
  bool changed{ theirs != std::locale::classic() };
  OwnLocale()
  {
    if (changed)
      std::locale::global(std::locale::classic());
  }
  ~OwnLocale()
  {
    if (changed)
      std::locale::global(theirs);
  }
};

// 1 sat, 0 unsat, -1 unknown
int solve(const std::vector<Z3_ast>& as, int kind /*0 lra,1 nra,2 fp,3 auto*/, bool strong, Z3_model* model = nullptr, unsigned rl = 0)
{
  checkDeadline();
  const OwnLocale own;
  S->queries++;
  (kind == 0 ? S->linear_q : kind == 2 ? S->fp_q : S->nonlinear_q)++;
  double t0 = now();
  Z3_solver s = kind == 3 ? Z3_mk_solver(z) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, kind == 0 ? "QF_LRA" : kind == 1 ? "QF_NRA" : "QF_FPBV"));
  Z3_solver_inc_ref(z, s);
  Z3_params ps = Z3_mk_params(z);
  Z3_params_inc_ref(z, ps);
  Z3_params_set_uint(z, ps, Z3_mk_string_symbol(z, "rlimit"), rl != 0 ? rl : (strong ? opt_rlimit * 4 : opt_rlimit));
  Z3_solver_set_params(z, s, ps);
  for (Z3_ast a : as)
    Z3_solver_assert(z, s, a);
  if (dumpq)
    emit(std::string("{\"type\":\"query\",\"smt\":") + jstr(Z3_solver_to_string(z, s)) + "}");
  int res = 0;
  if (kind == 1 && model == nullptr)
    res = isolatedCheck(s, strong ? 60 : 15);
  else
  {
    Z3_lbool r = Z3_solver_check(z, s);
    res = r == Z3_L_TRUE ? 1 : (r == Z3_L_FALSE ? 0 : -1);
  }
  if (res == 1 && model != nullptr)
  {
    *model = Z3_solver_get_model(z, s);
    Z3_model_inc_ref(z, *model);
  }
  if (res == -1 && model == nullptr && rl == 0)
  {
    std::string smt = std::string("(set-logic ALL)\n") + Z3_solver_to_string(z, s) + "(check-sat)\n";
    std::string e = runExternal(smt, strong ? 40 : 10);
    if (e == "sat")
      res = 1;
    else if (e == "unsat")
      res = 0;
  }
  Z3_params_dec_ref(z, ps);
  Z3_solver_dec_ref(z, s);
  S->solver_us += static_cast<long>((now() - t0) * 1e6);
  (res == 1 ? S->sat : res == 0 ? S->unsat : S->unknown)++;
  return res;
}

std::map<std::pair<size_t, std::pair<int, TermId>>, int> qcache;

int feasible(const Cond& c, bool strong = false)
{
  int q = quick(c);
  if (q >= 0)
    return q;
  auto key = std::make_pair(pc.size(), std::make_pair(static_cast<int>(c.rel), c.p));
  auto it = qcache.find(key);
  if (it != qcache.end() && it->second >= 0)
    return it->second;
  Slice s;
  closeSlice(s, { c.p }, false);
  s.asserts.push_back(zCond(c));
  int r = solve(s.asserts, s.linear ? 0 : 1, strong);
  qcache[key] = r;
  return r;
}

void addPc(const Cond& c)
{
  if (quick(c) == 1)
    return;
  pc.push_back(c);
  pcset.insert({ c.rel, c.p });
}

// ---- inputs / models ------------------------------------------------------------------------------------------------
struct Decision
{
  std::string name;
  int value;
};
std::vector<Decision> choices;
std::vector<std::pair<std::string, AtomId>> inputs;       // real mode
std::vector<std::pair<std::string, TermId>> fpinputs;     // fp mode
std::map<std::string, int> nameCount;
std::vector<std::pair<std::string, double>> observations;

std::string uniqueName(const std::string& n)
{
  int k = nameCount[n]++;
  return k == 0 ? n : n + "#" + std::to_string(k);
}

double numeral(Z3_ast v)
{
  if (Z3_is_algebraic_number(z, v))
  {
    Z3_ast lo = Z3_get_algebraic_number_lower(z, v, 40);
    std::string s = Z3_get_numeral_string(z, lo);
    return toDouble(Rat(s));
  }
  if (Z3_get_ast_kind(z, v) == Z3_NUMERAL_AST)
  {
    std::string s = Z3_get_numeral_string(z, v);
    return toDouble(Rat(s));
  }
  return 0.0;
}

using Assignment = std::map<std::string, double>;

bool realModel(const std::vector<Z3_ast>& base, bool linear, const std::vector<Z3_ast>& margin, Assignment& out)
{
  for (int attempt = 0; attempt < 4; ++attempt)
  {
    std::vector<Z3_ast> as = base;
    bool useint = attempt < 2;
    if (attempt == 0 || attempt == 2)
    {
      if (attempt == 0 || !margin.empty())
        as.insert(as.end(), margin.begin(), margin.end());
    }
    for (const auto& in : inputs)
    {
      Z3_ast x = atoms[in.second].z;
      if (attempt < 3)
      {
        as.push_back(Z3_mk_le(z, x, zrat(Rat(4096))));
        as.push_back(Z3_mk_ge(z, x, zrat(Rat(-4096))));
      }
      if (useint)
      {
        Z3_ast k = Z3_mk_const(z, Z3_mk_string_symbol(z, ("k!" + in.first).c_str()), intSort);
        Z3_ast f[2] = { zrat(Rat(1) / Rat(16)), Z3_mk_int2real(z, k) };
        as.push_back(Z3_mk_eq(z, x, Z3_mk_mul(z, 2, f)));
      }
    }
    // in a child process with a time limit: some queries stay for long in parts of z3 that do not watch its resource limit
    int fd[2];
    if (pipe(fd) != 0)
      return false;
    std::cout.flush();
    pid_t p = fork();
    if (p == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGALRM, SIG_DFL);
      alarm(attempt < 2 ? 6 : 30);
      Z3_model m = nullptr;
      int r = solve(as, useint ? 3 : (linear ? 0 : 1), true, &m, linear ? 20000000 : (useint ? 4000000 : 40000000));
      std::string o;
      if (r == 1)
        for (const auto& in : inputs)
        {
          Z3_ast v = nullptr;
          Z3_model_eval(z, m, atoms[in.second].z, true, &v);
          double d = numeral(v);
          o.append(reinterpret_cast<const char*>(&d), sizeof d);
        }
      o += r == 1 ? 'S' : 'N';
      for (size_t k = 0; k < o.size();)
      {
        ssize_t w = write(fd[1], o.data() + k, o.size() - k);
        if (w <= 0)
          break;
        k += static_cast<size_t>(w);
      }
      _exit(0);
    }
    close(fd[1]);
    std::string o;
    char buf[4096];
    for (;;)
    {
      ssize_t k = read(fd[0], buf, sizeof buf);
      if (k < 0 && errno == EINTR)
        continue;
      if (k <= 0)
        break;
      o.append(buf, static_cast<size_t>(k));
    }
    close(fd[0]);
    int st = 0;
    while (p > 0 && waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    if (o.size() == inputs.size() * sizeof(double) + 1 && o.back() == 'S')
    {
      size_t at = 0;
      for (const auto& in : inputs)
      {
        double d;
        std::memcpy(&d, o.data() + at, sizeof d);
        at += sizeof d;
        out[in.first] = d;
      }
      return true;
    }
  }
  return false;
}

bool fpModel(const std::vector<Z3_ast>& as, Assignment& out)
{
  Z3_model m = nullptr;
  int r = solve(as, 2, true, &m, 400000000);
  if (r != 1)
    return false;
  for (const auto& in : fpinputs)
  {
    Z3_ast v = nullptr;
    Z3_model_eval(z, m, fpterms[in.second], true, &v);
    Z3_ast bv = Z3_simplify(z, Z3_mk_fpa_to_ieee_bv(z, v));
    uint64_t u = 0;
    if (!Z3_get_numeral_uint64(z, bv, &u))
      u = 0x7FF8000000000000ULL;
    out[in.first] = frombits(u);
  }
  Z3_model_dec_ref(z, m);
  return true;
}

double evalAtom(AtomId a, const Assignment& as, std::map<AtomId, double>& memo);
double evalTerm(TermId t, const Assignment& as, std::map<AtomId, double>& memo)
{
  double r = 0;
  for (const auto& m : polys[t])
  {
    double v = toDouble(m.second);
    for (const auto& f : monos[m.first])
      for (uint32_t k = 0; k < f.second; ++k)
        v *= evalAtom(f.first, as, memo);
    r += v;
  }
  return r;
}
double evalAtom(AtomId a, const Assignment& as, std::map<AtomId, double>& memo)
{
  auto it = memo.find(a);
  if (it != memo.end())
    return it->second;
  const Atom& at = atoms[a];
  double v = 0;
  switch (at.kind)
  {
    case Atom::INPUT:
    {
      auto f = as.find(at.name);
      v = f == as.end() ? 0.0 : f->second;
      break;
    }
    case Atom::ITE:
    {
      double p = evalTerm(at.c.p, as, memo);
      bool c = at.c.rel == LT ? p < 0 : at.c.rel == LE ? p <= 0 : at.c.rel == EQ ? p == 0 : p != 0;
      v = evalTerm(c ? at.a : at.b, as, memo);
      break;
    }
    case Atom::QUOT: v = evalTerm(at.a, as, memo) / evalTerm(at.b, as, memo); break;
    case Atom::SQRT: v = std::sqrt(evalTerm(at.a, as, memo)); break;
    case Atom::SIN: v = std::sin(evalTerm(at.a, as, memo)); break;
    case Atom::COS: v = std::cos(evalTerm(at.a, as, memo)); break;
  }
  memo[a] = v;
  return v;
}

std::string hexd(double d)
{
  char b[64];
  if (std::isnan(d))
    return "\"nan\"";
  snprintf(b, sizeof(b), "\"%a\"", d);
  return b;
}

std::string caseJson(const Assignment& as)
{
  std::ostringstream o;
  o << "\"choices\":[";
  for (size_t i = 0; i < choices.size(); ++i)
    o << (i ? "," : "") << "[" << jstr(choices[i].name) << "," << choices[i].value << "]";
  o << "],\"inputs\":[";
  bool first = true;
  for (const auto& kv : as)
  {
    o << (first ? "" : ",") << "[" << jstr(kv.first) << "," << hexd(kv.second) << "]";
    first = false;
  }
  o << "]";
  return o.str();
}

// try to produce a concrete case for the current path condition (+ extra) and record it
bool recordCase(const char* type, const std::string& label, const std::string& msg, const std::vector<Cond>& extra,
                const std::vector<Z3_ast>& margin, Z3_ast fpextra, bool withobs)
{
  Assignment as;
  bool ok = false;
  if (opt_fp)
  {
    std::vector<Z3_ast> a = fpc;
    if (fpextra != nullptr)
      a.push_back(fpextra);
    ok = fpModel(a, as);
  }
  else
  {
    Slice s;
    std::vector<TermId> seeds;
    for (const auto& c : extra)
      seeds.push_back(c.p);
    closeSlice(s, seeds, true);
    for (const auto& c : extra)
      s.asserts.push_back(zCond(c));
    ok = realModel(s.asserts, s.linear, margin, as);
  }
  if (!ok)
    return false;
  std::ostringstream o;
  o << "{\"type\":\"" << type << "\",\"harness\":" << jstr(harness_name) << ",\"label\":" << jstr(label) << ",\"msg\":" << jstr(msg) << ","
    << caseJson(as);
  if (withobs && !opt_fp)
  {
    std::map<AtomId, double> memo;
    o << ",\"observed\":[";
    for (size_t i = 0; i < observations.size(); ++i)
    {
      double v = observations[i].second;
      if (isBox(v))
        v = bits(v) == UNINIT ? as["uninit"] : evalTerm(static_cast<TermId>((bits(v) & 0x3FFFFFFFFFFFFULL) - 1), as, memo);
      o << (i ? "," : "") << "[" << jstr(observations[i].first) << "," << hexd(v) << "]";
    }
    o << "]";
  }
  o << "}";
  emit(o.str());
  return true;
}

[[noreturn]] void endPath()
{
  S->paths++;
  long d = S->maxdepth.load();
  while (depth > d && !S->maxdepth.compare_exchange_weak(d, depth))
    ;
  if (S->samples.load() < opt_samples)
  {
    long k = S->samples.fetch_add(1);
    if (k < opt_samples)
    {
      if (!recordCase("sample", "", "", {}, {}, nullptr, true))
        S->infeasible_end++;
    }
  }
  finishProcess();
}

extern "C" char __executable_start;
void traceFork()
{
  static const bool on = std::getenv("SYM_TRACE_FORKS") != nullptr;
  if (!on)
    return;
  void* fr[14];
  int k = backtrace(fr, 14);
  std::string o = "FORK";
  char buf[32];
  for (int i = 2; i < k; ++i)
  {
    std::snprintf(buf, sizeof buf, " %lx", static_cast<unsigned long>(static_cast<char*>(fr[i]) - &__executable_start));
    o += buf;
  }
  o += "\n";
  if (write(2, o.data(), o.size()) < 0)
    return;
}

void doFork(bool& isChild)
{
  checkDeadline();
  traceFork();
  S->forks++;
  depth++;
  if (depth > opt_maxdepth)
  {
    S->boundexceeded = 1;
    finishProcess();
  }
  int t = S->tokens.load();
  bool got = false;
  while (t > 0 && !got)
    got = S->tokens.compare_exchange_weak(t, t - 1);
  std::cout.flush();
  pid_t p = fork();
  if (p < 0)
  {
    S->engineerror = 1;
    finishProcess();
  }
  if (p == 0)
  {
    children.clear();
    have_token = got;
    isChild = true;
    return;
  }
  isChild = false;
  if (got)
    children.push_back(p);
  else
    reap(p);
  if (children.size() > 64)
  {
    for (pid_t c : children)
      reap(c);
    children.clear();
  }
}

bool decide(const Cond& c)
{
  int q = quick(c);
  if (q >= 0)
    return q == 1;
  S->decisions++;
  Cond n = negate(c);
  int ft = feasible(c);
  if (ft == 0)
  {
    addPc(n);
    return false;
  }
  int ff = feasible(n);
  if (ff == 0)
  {
    addPc(c);
    return true;
  }
  bool child = false;
  doFork(child);
  addPc(child ? n : c);
  return !child;
}

// ---- fp mode --------------------------------------------------------------------------------------------------------
Z3_ast fpTerm(double d)
{
  if (isBox(d))
  {
    if (bits(d) == UNINIT)
      unsupported("uninitialised value in fp mode");
    uint64_t id = (bits(d) & 0x3FFFFFFFFFFFFULL) - 1;
    if (id >= fpterms.size())
      unsupported("corrupted symbolic value");
    return fpterms[id];
  }
  return Z3_mk_fpa_numeral_double(z, d, fpSort);
}
double fpBox(Z3_ast e)
{
  e = Z3_simplify(z, e);
  Z3_inc_ref(z, e);
  if (Z3_is_numeral_ast(z, e) || Z3_get_ast_kind(z, e) == Z3_NUMERAL_AST)
  {
    Z3_ast bv = Z3_simplify(z, Z3_mk_fpa_to_ieee_bv(z, e));
    uint64_t u = 0;
    if (Z3_get_numeral_uint64(z, bv, &u))
      return frombits(u);
    return std::nan("");
  }
  unsigned id = Z3_get_ast_id(z, e);
  auto it = fpIndex.find(id);
  if (it != fpIndex.end())
    return mkbox(it->second);
  fpterms.push_back(e);
  TermId t = static_cast<TermId>(fpterms.size() - 1);
  fpIndex[id] = t;
  return mkbox(t);
}
int fpFeasible(Z3_ast c, bool strong = false)
{
  std::vector<Z3_ast> a = fpc;
  a.push_back(c);
  return solve(a, 2, strong);
}
bool fpDecide(Z3_ast c)
{
  c = Z3_simplify(z, c);
  Z3_inc_ref(z, c);
  Z3_lbool b = Z3_get_bool_value(z, c);
  if (b != Z3_L_UNDEF)
    return b == Z3_L_TRUE;
  unsigned id = Z3_get_ast_id(z, c);
  auto it = fpKnown.find(id);
  if (it != fpKnown.end())
    return it->second == 1;
  S->decisions++;
  Z3_ast n = Z3_mk_not(z, c);
  Z3_inc_ref(z, n);
  int ft = fpFeasible(c);
  if (ft == 0)
  {
    fpKnown[id] = 0;
    return false;
  }
  int ff = fpFeasible(n);
  if (ff == 0)
  {
    fpKnown[id] = 1;
    return true;
  }
  bool child = false;
  doFork(child);
  fpc.push_back(child ? n : c);
  fpKnown[id] = child ? 0 : 1;
  return !child;
}
Z3_ast fpPred(unsigned pred, Z3_ast a, Z3_ast b)
{
  Z3_ast uno[2] = { Z3_mk_fpa_is_nan(z, a), Z3_mk_fpa_is_nan(z, b) };
  Z3_ast u = Z3_mk_or(z, 2, uno);
  Z3_ast o = Z3_mk_not(z, u);
  Z3_ast lt = Z3_mk_fpa_lt(z, a, b), gt = Z3_mk_fpa_gt(z, a, b), eq = Z3_mk_fpa_eq(z, a, b);
  std::vector<Z3_ast> alts;
  if (pred & 1)
    alts.push_back(eq);
  if (pred & 2)
    alts.push_back(gt);
  if (pred & 4)
    alts.push_back(lt);
  if (pred & 8)
    alts.push_back(u);
  (void)o;
  if (alts.empty())
    return Z3_mk_false(z);
  if (pred == 15)
    return Z3_mk_true(z);
  return Z3_mk_or(z, static_cast<unsigned>(alts.size()), alts.data());
}

// ---- comparison helper ----------------------------------------------------------------------------------------------
// decides a PRED b for two values of which at least one is symbolic; returns true and sets c if a condition is needed
enum class Cmp { False, True, Symbolic };
// A difference that is to be compared with zero may be multiplied by the positive value of a divisor in it.
Poly clearQuotients(Poly d)
{
  for (int round = 0; round < 4; ++round)
  {
    bool changed = false;
    for (size_t i = 0; i < d.size() && !changed; ++i)
    {
      const Mono& m = monos[d[i].first];
      if (m.size() != 1 || m[0].second != 1 || atoms[m[0].first].kind != Atom::QUOT)
        continue;
      const AtomId q = m[0].first;
      bool once = true;
      for (size_t j = 0; j < d.size() && once; ++j)
        if (j != i)
          for (const auto& f : monos[d[j].first])
            once = once && f.first != q;
      if (!once)
        continue;
      const Poly den = polys[atoms[q].b];
      int sign = feasible(mkCond(LE, den)) == 0 ? 1 : (feasible(mkCond(LE, scale(den, Rat(-1)))) == 0 ? -1 : 0);
      if (sign == 0)
        continue;
      const Rat k = d[i].second;
      Poly rest = d;
      rest.erase(rest.begin() + static_cast<long>(i));
      d = scale(addScaled(mulPoly(rest, den), polys[atoms[q].a], k), Rat(sign));
      changed = true;
    }
    if (!changed)
      break;
  }
  return d;
}

Cmp realCmp(unsigned pred, double a, double b, Cond& c)
{
  if (pred == 0)
    return Cmp::False;
  if (pred == 15)
    return Cmp::True;
  auto tri = [&](bool lt, bool eq, bool gt, bool un) {
    bool r = ((pred & 1) && eq) || ((pred & 2) && gt) || ((pred & 4) && lt) || ((pred & 8) && un);
    return r ? Cmp::True : Cmp::False;
  };
  bool ba = isBox(a), bb = isBox(b);
  if ((!ba && std::isnan(a)) || (!bb && std::isnan(b)))
    return tri(false, false, false, true);
  bool ia = !ba && std::isinf(a), ib = !bb && std::isinf(b);
  if (ia || ib)
  {
    double x = ia ? a : 0, y = ib ? b : 0;
    return tri(x < y, x == y, x > y, false);
  }
  Poly d = clearQuotients(addScaled(polyOf(a), polyOf(b), Rat(-1)));
  unsigned k = pred & 7;  // symbolic values are never NaN in real mode
  if (k == 0)
    return Cmp::False;
  if (k == 7)
    return Cmp::True;
  switch (k)
  {
    case 1: c = mkCond(EQ, d); break;
    case 2: c = mkCond(LT, scale(d, Rat(-1))); break;
    case 3: c = mkCond(LE, scale(d, Rat(-1))); break;
    case 4: c = mkCond(LT, d); break;
    case 5: c = mkCond(LE, d); break;
    default: c = mkCond(NE, d); break;
  }
  int q = quick(c);
  if (q >= 0)
    return q == 1 ? Cmp::True : Cmp::False;
  return Cmp::Symbolic;
}

bool concreteCmp(unsigned pred, double a, double b)
{
  bool un = std::isnan(a) || std::isnan(b);
  return ((pred & 1) && a == b) || ((pred & 2) && a > b) || ((pred & 4) && a < b) || ((pred & 8) && un);
}

bool fcmp(unsigned pred, double a, double b)
{
  if (!isBox(a) && !isBox(b))
    return concreteCmp(pred, a, b);
  if (opt_fp)
    return fpDecide(fpPred(pred, fpTerm(a), fpTerm(b)));
  Cond c{};
  Cmp r = realCmp(pred, a, b, c);
  if (r != Cmp::Symbolic)
    return r == Cmp::True;
  return decide(c);
}

double signedInf(double like, bool flip)
{
  bool neg = std::signbit(like) != flip;
  return neg ? -INFINITY : INFINITY;
}
}  // namespace

// ---------------------------------------------------------------------------------------------------------------------
// intercepted operations
// ---------------------------------------------------------------------------------------------------------------------
// the model checker's own work is not part of any thread of the code under test
static int busy_depth = 0;
struct Busy
{
  Busy() { ++busy_depth; }
  ~Busy() { --busy_depth; }
};
extern "C" {
double __sym_fneg(double a)
{
  const Busy busy;
  if (!isBox(a))
    return -a;
  if (opt_fp)
    return fpBox(Z3_mk_fpa_neg(z, fpTerm(a)));
  return box(scale(polyOf(a), Rat(-1)));
}
double __sym_fadd(double a, double b)
{
  const Busy busy;
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb)
    return a + b;
  if (opt_fp)
    return fpBox(Z3_mk_fpa_add(z, rne, fpTerm(a), fpTerm(b)));
  if (!ba && !std::isfinite(a))
    return a;
  if (!bb && !std::isfinite(b))
    return b;
  return box(addScaled(polyOf(a), polyOf(b), Rat(1)));
}
double __sym_fsub(double a, double b)
{
  const Busy busy;
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb)
    return a - b;
  if (opt_fp)
    return fpBox(Z3_mk_fpa_sub(z, rne, fpTerm(a), fpTerm(b)));
  if (!ba && !std::isfinite(a))
    return a;
  if (!bb && !std::isfinite(b))
    return -b;
  return box(addScaled(polyOf(a), polyOf(b), Rat(-1)));
}
double __sym_fmul(double a, double b)
{
  const Busy busy;
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb)
    return a * b;
  if (opt_fp)
    return fpBox(Z3_mk_fpa_mul(z, rne, fpTerm(a), fpTerm(b)));
  if (!ba || !bb)
  {
    double c = ba ? b : a;
    double s = ba ? a : b;
    if (std::isnan(c))
      return c;
    if (std::isinf(c))
    {
      if (fcmp(1, s, 0.0))
        return std::nan("");
      return fcmp(4, s, 0.0) ? signedInf(c, true) : signedInf(c, false);
    }
    return box(scale(polyOf(s), ratOf(c)));
  }
  return box(mulPoly(polyOf(a), polyOf(b)));
}
double __sym_fdiv(double a, double b)
{
  const Busy busy;
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb)
    return a / b;
  if (opt_fp)
    return fpBox(Z3_mk_fpa_div(z, rne, fpTerm(a), fpTerm(b)));
  if ((!ba && std::isnan(a)) || (!bb && std::isnan(b)))
    return std::nan("");
  if (!bb)
  {
    if (std::isinf(b))
      return 0.0;
    if (b == 0.0)
    {
      if (fcmp(1, a, 0.0))
        return std::nan("");
      return fcmp(4, a, 0.0) ? signedInf(b, true) : signedInf(b, false);
    }
    return box(scale(polyOf(a), Rat(1) / ratOf(b)));
  }
  if (fcmp(1, b, 0.0))
  {
    if (!ba)
      return a == 0.0 ? std::nan("") : signedInf(a, false);
    if (fcmp(1, a, 0.0))
      return std::nan("");
    return fcmp(4, a, 0.0) ? -INFINITY : INFINITY;
  }
  if (!ba && std::isinf(a))
    return fcmp(4, b, 0.0) ? signedInf(a, true) : a;
  Poly n = polyOf(a), d = polyOf(b);
  if (n.empty())
    return 0.0;
  if (isConst(d))
    return box(scale(n, Rat(1) / constOf(d)));
  // normalise the divisor
  Rat lead = d.front().first == 0 && d.size() > 1 ? d[1].second : d[0].second;
  n = scale(n, Rat(1) / lead);
  d = scale(d, Rat(1) / lead);
  if (n.size() == d.size())
  {
    Rat k = n[0].second / d[0].second;
    if (scale(d, k) == n)
      return box(constPoly(k));
  }
  if (d.size() == 1)
  {
    const Mono dm = monos[d[0].first];
    bool all = true;
    Poly q;
    for (const auto& t : n)
    {
      Mono m = monos[t.first];
      for (const auto& f : dm)
      {
        bool ok = false;
        for (auto& g : m)
          if (g.first == f.first && g.second >= f.second)
          {
            g.second -= f.second;
            ok = true;
          }
        if (!ok)
          all = false;
      }
      if (!all)
        break;
      Mono m2;
      for (auto& g : m)
        if (g.second > 0)
          m2.push_back(g);
      q.emplace_back(internMono(m2), t.second);
    }
    if (all)
    {
      std::sort(q.begin(), q.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
      return box(q);
    }
  }
  // common rational content of the numerator is factored out so that equal quotients share an atom
  Rat nl = n.front().first == 0 && n.size() > 1 ? n[1].second : n[0].second;
  n = scale(n, Rat(1) / nl);
  Atom at;
  at.kind = Atom::QUOT;
  at.a = internPoly(n);
  at.b = internPoly(d);
  AtomId id = newAtom("quot(" + std::to_string(at.a) + "," + std::to_string(at.b) + ")", at);
  return box(scale(atomPoly(id), nl));
}
int __sym_fcmp(int pred, double a, double b) { return fcmp(static_cast<unsigned>(pred), a, b) ? 1 : 0; }

double __sym_fselect(int pred, double a, double b, double x, double y)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b))
    return concreteCmp(static_cast<unsigned>(pred), a, b) ? x : y;
  if (bits(x) == bits(y))
    return x;
  if (opt_fp)
  {
    Z3_ast c = Z3_simplify(z, fpPred(static_cast<unsigned>(pred), fpTerm(a), fpTerm(b)));
    Z3_lbool bv = Z3_get_bool_value(z, c);
    if (bv != Z3_L_UNDEF)
      return bv == Z3_L_TRUE ? x : y;
    return fpBox(Z3_mk_ite(z, c, fpTerm(x), fpTerm(y)));
  }
  Cond c{};
  Cmp r = realCmp(static_cast<unsigned>(pred), a, b, c);
  if (r != Cmp::Symbolic)
    return r == Cmp::True ? x : y;
  bool finite = (isBox(x) || std::isfinite(x)) && (isBox(y) || std::isfinite(y));
  if (!finite)
    return decide(c) ? x : y;
  if (feasible(c) == 0)
  {
    addPc(negate(c));
    return y;
  }
  Cond n = negate(c);
  if (feasible(n) == 0)
  {
    addPc(c);
    return x;
  }
  Atom at;
  at.kind = Atom::ITE;
  Poly px = polyOf(x), py = polyOf(y);
  if (px == py)
    return x;
  // canonical orientation: the smaller of the condition / its negation
  bool swap = std::make_pair(static_cast<int>(n.rel), n.p) < std::make_pair(static_cast<int>(c.rel), c.p);
  at.c = swap ? n : c;
  at.a = internPoly(swap ? py : px);
  at.b = internPoly(swap ? px : py);
  AtomId id = newAtom("ite(" + std::to_string(at.c.rel) + "," + std::to_string(at.c.p) + "," + std::to_string(at.a) + "," +
                          std::to_string(at.b) + ")",
                      at);
  return box(atomPoly(id));
}
double __sym_fabs(double a)
{
  const Busy busy;
  if (!isBox(a))
    return std::fabs(a);
  if (opt_fp)
    return fpBox(Z3_mk_fpa_abs(z, fpTerm(a)));
  return __sym_fselect(4 /*olt*/, a, 0.0, __sym_fneg(a), a);
}
double __sym_fmin(double a, double b)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b))
    return std::fmin(a, b);
  if (opt_fp)
  {
    Z3_ast x = fpTerm(a), y = fpTerm(b);
    return fpBox(Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, x), y,
                           Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, y), x, Z3_mk_ite(z, Z3_mk_fpa_lt(z, y, x), y, x))));
  }
  if (!isBox(a) && std::isnan(a))
    return b;
  if (!isBox(b) && std::isnan(b))
    return a;
  return __sym_fselect(4, b, a, b, a);
}
double __sym_fmax(double a, double b)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b))
    return std::fmax(a, b);
  if (opt_fp)
  {
    Z3_ast x = fpTerm(a), y = fpTerm(b);
    return fpBox(Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, x), y,
                           Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, y), x, Z3_mk_ite(z, Z3_mk_fpa_lt(z, x, y), y, x))));
  }
  if (!isBox(a) && std::isnan(a))
    return b;
  if (!isBox(b) && std::isnan(b))
    return a;
  return __sym_fselect(4, a, b, b, a);
}
double __sym_sqrt(double a)
{
  const Busy busy;
  if (!isBox(a))
    return std::sqrt(a);
  if (opt_fp)
    return fpBox(Z3_mk_fpa_sqrt(z, rne, fpTerm(a)));
  if (fcmp(4, a, 0.0))
    return std::nan("");
  Poly p = polyOf(a);
  if (p.size() == 1)
  {
    // sqrt(c * m^2) = sqrt(c) * |m| when c is a perfect square
    double c = toDouble(p[0].second);
    double r = std::sqrt(c);
    bool even = true;
    Mono h = monos[p[0].first];
    for (auto& f : h)
    {
      if (f.second % 2)
        even = false;
      f.second /= 2;
    }
    if (even && ratOf(r) * ratOf(r) == p[0].second)
    {
      Poly q;
      q.emplace_back(internMono(h), ratOf(r));
      return __sym_fabs(box(q));
    }
  }
  Atom at;
  at.kind = Atom::SQRT;
  at.a = internPoly(p);
  AtomId id = newAtom("sqrt(" + std::to_string(at.a) + ")", at);
  return box(atomPoly(id));
}
double __sym_powi(double a, int n)
{
  const Busy busy;
  if (!isBox(a))
    return std::pow(a, n);
  double r = 1.0;
  int k = n < 0 ? -n : n;
  for (int i = 0; i < k; ++i)
    r = __sym_fmul(r, a);
  return n < 0 ? __sym_fdiv(1.0, r) : r;
}
double __sym_pow(double a, double b)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b))
    return std::pow(a, b);
  if (!isBox(b) && b == std::floor(b) && std::fabs(b) < 16)
    return __sym_powi(a, static_cast<int>(b));
  if (!isBox(b) && b == 0.5)
    return __sym_sqrt(a);
  unsupported("pow of a symbolic value");
}
double __sym_fma(double a, double b, double c)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b) && !isBox(c))
    return std::fma(a, b, c);
  if (opt_fp)
    return fpBox(Z3_mk_fpa_fma(z, rne, fpTerm(a), fpTerm(b), fpTerm(c)));
  return __sym_fadd(__sym_fmul(a, b), c);
}

// the integer k with lo(k) <= a < hi(k), enumerated through solver models
static double concretizeInt(double a, int mode /*0 floor,1 trunc,2 ceil*/)
{
  if (opt_fp)
    unsupported("integer conversion of a symbolic value in fp mode");
  Poly p = polyOf(a);
  for (int it = 0; it < 200; ++it)
  {
    // a model value of a
    Slice s;
    TermId t = internPoly(p);
    closeSlice(s, { t }, false);
    Z3_model m = nullptr;
    int r = solve(s.asserts, s.linear ? 0 : 1, true, &m, opt_rlimit);
    if (r != 1)
      unsupported("no model while converting a symbolic value to an integer");
    Z3_ast v = nullptr;
    Z3_model_eval(z, m, zPoly(t), true, &v);
    double d = numeral(v);
    Z3_model_dec_ref(z, m);
    double k = mode == 0 ? std::floor(d) : mode == 2 ? std::ceil(d) : std::trunc(d);
    bool in = false;
    if (mode == 0 || (mode == 1 && k > 0))
      in = fcmp(3, a, k) && fcmp(4, a, k + 1);
    else if (mode == 2 || (mode == 1 && k < 0))
      in = fcmp(2, a, k - 1) && fcmp(5, a, k);
    else
      in = fcmp(2, a, -1.0) && fcmp(4, a, 1.0);
    if (in)
      return k;
  }
  S->boundexceeded = 1;
  finishProcess();
}
double __sym_floor(double a) { return isBox(a) ? concretizeInt(a, 0) : std::floor(a); }
double __sym_ceil(double a) { return isBox(a) ? concretizeInt(a, 2) : std::ceil(a); }
double __sym_trunc(double a) { return isBox(a) ? concretizeInt(a, 1) : std::trunc(a); }
double __sym_concretize_trunc(double a) { return isBox(a) ? concretizeInt(a, 1) : a; }
double __sym_round(double a)
{
  const Busy busy;
  if (!isBox(a))
    return std::round(a);
  return fcmp(4, a, 0.0) ? concretizeInt(__sym_fsub(a, 0.5), 2) : concretizeInt(__sym_fadd(a, 0.5), 0);
}
double __sym_rint(double a)
{
  const Busy busy;
  if (!isBox(a))
    return std::rint(a);
  unsupported("rint of a symbolic value");
}
double __sym_nearbyint(double a) { return __sym_rint(a); }
static double trig(double a, bool sine)
{
  if (opt_fp)
    unsupported("trigonometry in fp mode");
  TermId t = internPoly(polyOf(a));
  Atom s, c;
  s.kind = Atom::SIN;
  s.a = t;
  c.kind = Atom::COS;
  c.a = t;
  AtomId is = newAtom("sin(" + std::to_string(t) + ")", s);
  AtomId ic = newAtom("cos(" + std::to_string(t) + ")", c);
  return box(atomPoly(sine ? is : ic));
}
double __sym_sin(double a) { return isBox(a) ? trig(a, true) : std::sin(a); }
double __sym_cos(double a) { return isBox(a) ? trig(a, false) : std::cos(a); }
#define UNSUP1(n)                                                                                                      \
  double __sym_##n(double a)                                                                                           \
  {                                                                                                                    \
    if (!isBox(a))                                                                                                     \
      return std::n(a);                                                                                                \
    unsupported(#n " of a symbolic value");                                                                            \
  }
UNSUP1(tan) UNSUP1(asin) UNSUP1(acos) UNSUP1(atan) UNSUP1(exp) UNSUP1(log) UNSUP1(exp2) UNSUP1(log2) UNSUP1(log10)
UNSUP1(cbrt) UNSUP1(sinh) UNSUP1(cosh) UNSUP1(tanh)
#define UNSUP2(n)                                                                                                      \
  double __sym_##n(double a, double b)                                                                                 \
  {                                                                                                                    \
    if (!isBox(a) && !isBox(b))                                                                                        \
      return std::n(a, b);                                                                                             \
    unsupported(#n " of a symbolic value");                                                                            \
  }
UNSUP2(atan2)
double __sym_hypot(double a, double b)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b))
    return std::hypot(a, b);
  return __sym_sqrt(__sym_fadd(__sym_fmul(a, a), __sym_fmul(b, b)));
}
double __sym_fmod(double a, double b)
{
  const Busy busy;
  if (!isBox(a) && !isBox(b))
    return std::fmod(a, b);
  if (isBox(b))
    unsupported("fmod with a symbolic divisor");
  double k = __sym_trunc(__sym_fdiv(a, b));
  return __sym_fsub(a, __sym_fmul(k, b));
}
double __sym_copysign(double a, double b)
{
  const Busy busy;
  if (!isBox(b))
  {
    if (!isBox(a))
      return std::copysign(a, b);
    double m = __sym_fabs(a);
    return std::signbit(b) ? __sym_fneg(m) : m;
  }
  if (opt_fp)
    unsupported("copysign in fp mode");
  double m = __sym_fabs(a);
  return __sym_fselect(4, b, 0.0, __sym_fneg(m), m);
}
double __sym_narrow(double a)
{
  const Busy busy;
  if (isBox(a))
    unsupported("precision conversion of a symbolic value");
  return a;
}
double __sym_bits(double a)
{
  const Busy busy;
  if (isBox(a))
    unsupported("bit inspection of a symbolic value");
  return a;
}
int __sym_is_fpclass(double a, int mask)
{
  const Busy busy;
  if (!isBox(a))
  {
    int c = 0;
    if (std::isnan(a))
      c = 3;
    else if (std::isinf(a))
      c = a < 0 ? 4 : 512;
    else if (a == 0)
      c = std::signbit(a) ? 32 : 64;
    else if (std::fpclassify(a) == FP_SUBNORMAL)
      c = a < 0 ? 16 : 128;
    else
      c = a < 0 ? 8 : 256;
    return (c & mask) != 0 ? 1 : 0;
  }
  if (opt_fp)
  {
    Z3_ast e = fpTerm(a);
    std::vector<Z3_ast> alts;
    Z3_ast neg = Z3_mk_fpa_is_negative(z, e);
    auto pair = [&](int nm, int pm, Z3_ast cls) {
      if ((mask & nm) && (mask & pm))
        alts.push_back(cls);
      else if (mask & nm)
      {
        Z3_ast q[2] = { cls, neg };
        alts.push_back(Z3_mk_and(z, 2, q));
      }
      else if (mask & pm)
      {
        Z3_ast q[2] = { cls, Z3_mk_not(z, neg) };
        alts.push_back(Z3_mk_and(z, 2, q));
      }
    };
    if (mask & 3)
      alts.push_back(Z3_mk_fpa_is_nan(z, e));
    pair(4, 512, Z3_mk_fpa_is_infinite(z, e));
    pair(8, 256, Z3_mk_fpa_is_normal(z, e));
    pair(16, 128, Z3_mk_fpa_is_subnormal(z, e));
    pair(32, 64, Z3_mk_fpa_is_zero(z, e));
    if (alts.empty())
      return 0;
    return fpDecide(Z3_mk_or(z, static_cast<unsigned>(alts.size()), alts.data())) ? 1 : 0;
  }
  // real mode: finite; negative / zero / positive may matter
  bool n = (mask & 8) != 0, zr = (mask & 64) != 0, p = (mask & 256) != 0;
  if (n == zr && zr == p)
    return n ? 1 : 0;
  if (fcmp(4, a, 0.0))
    return n;
  if (fcmp(1, a, 0.0))
    return zr;
  return p;
}
void __sym_guard_i64(uint64_t v)
{
  const Busy busy;
  if (__builtin_expect((v & MASK) == BOX && v != UNINIT, 0))
  {
    uint64_t id = v & 0x3FFFFFFFFFFFFULL;
    if (id >= 1 && id <= (opt_fp ? fpterms.size() : polys.size()))
      unsupported("integer arithmetic on the bits of a symbolic value");
  }
}
void __sym_check_mem(const void* p, uint64_t n)
{
  const Busy busy;
  const char* c = static_cast<const char*>(p);
  for (uint64_t i = 0; i + 8 <= n; i += 8)
  {
    uint64_t u;
    std::memcpy(&u, c + i, 8);
    if ((u & MASK) == BOX && u != UNINIT)
      unsupported("bytes of a symbolic value inspected");
  }
}
void __sym_fn(char* flag, const char* name)
{
  const Busy busy;
  if (*flag != 0)
    return;
  *flag = 1;
  if (S == nullptr)
    return;
  int st = 0;
  char* d = abi::__cxa_demangle(name, nullptr, nullptr, &st);
  table(S->fns, MAXFN, d != nullptr ? d : name, sizeof(S->fns[0].name));
  free(d);
}
}

// ---------------------------------------------------------------------------------------------------------------------
// memory: fresh heap storage reads as the symbolic value "uninit"
// ---------------------------------------------------------------------------------------------------------------------
static bool fill_on = false;
static void fillMem(void* p, size_t n)
{
  if (!fill_on || p == nullptr || n > (1u << 22))
    return;
  uint64_t* q = static_cast<uint64_t*>(p);
  for (size_t i = 0; i < n / 8; ++i)
    q[i] = UNINIT;
}
extern "C" void* __real_malloc(size_t n);
extern "C" void* __wrap_malloc(size_t n)
{
  void* p = __real_malloc(n);
  fillMem(p, n);
  return p;
}
namespace sym { void (*preempt)() = nullptr; }
static inline void preemptPoint()
{
  if (sym::preempt != nullptr && busy_depth == 0)
    sym::preempt();
}
void* operator new(size_t n)
{
  preemptPoint();
  void* p = __real_malloc(n == 0 ? 1 : n);
  if (p == nullptr)
    throw std::bad_alloc();
  fillMem(p, n);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void release(void* p) noexcept
{
  preemptPoint();
  free(p);
}
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }

// ---------------------------------------------------------------------------------------------------------------------
// harness interface
// ---------------------------------------------------------------------------------------------------------------------
namespace
{
std::map<std::string, sym::HarnessFn>& registry()
{
  static std::map<std::string, sym::HarnessFn> r;
  return r;
}
std::set<std::string> boundsSeen;

void violation(const std::string& label, const std::string& msg, const std::vector<Cond>& extra, const std::vector<Z3_ast>& margin,
               Z3_ast fpextra)
{
  Label* l = checkLabel(label);
  long k = l->violated.fetch_add(1);
  if (k >= 3)
    return;  // a few cases per label are enough
  if (!recordCase("violation", label, msg, extra, margin, fpextra, false))
  {
    l->unknown++;
    l->violated--;
    emit("{\"type\":\"inconclusive\",\"label\":" + jstr(label) + ",\"msg\":\"violated path without a model\"}");
  }
}

void crashHandler(int sig)
{
  signal(sig, SIG_DFL);
  static volatile sig_atomic_t once = 0;
  if (once == 0)
  {
    once = 1;
    checkLabel(std::string("crash:") + strsignal(sig))->reached++;
    violation(std::string("crash:") + strsignal(sig), "the code under test terminated abnormally", {}, {}, nullptr);
  }
  S->paths++;
  finishProcess();
}

enum class Want { EQ_, LE_, LT_ };

// checks a REL b for values of which one may be symbolic
void checkRel(double a, double b, Want w, const std::string& label)
{
  Label* l = checkLabel(label);
  l->reached++;
  if (observations.size() < 400)
  {
    observations.emplace_back(label + ":a", a);
    observations.emplace_back(label + ":b", b);
  }
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb)
  {
    bool ok;
    if (w == Want::EQ_)
      ok = (std::isnan(a) && std::isnan(b)) || a == b ||
           (std::isfinite(a) && std::isfinite(b) && !opt_fp && std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)));
    else if (w == Want::LE_)
      ok = a <= b;
    else
      ok = a < b;
    if (ok)
      l->discharged_trivial++;
    else
      violation(label, "concrete values " + std::to_string(a) + " vs " + std::to_string(b), {}, {}, nullptr);
    return;
  }
  if (opt_fp)
  {
    Z3_ast x = fpTerm(a), y = fpTerm(b);
    Z3_ast c;
    if (w == Want::EQ_)
    {
      Z3_ast nn[2] = { Z3_mk_fpa_is_nan(z, x), Z3_mk_fpa_is_nan(z, y) };
      Z3_ast alt[2] = { Z3_mk_and(z, 2, nn), Z3_mk_fpa_eq(z, x, y) };
      c = Z3_mk_or(z, 2, alt);
    }
    else
      c = w == Want::LE_ ? Z3_mk_fpa_leq(z, x, y) : Z3_mk_fpa_lt(z, x, y);
    c = Z3_simplify(z, c);
    Z3_inc_ref(z, c);
    if (Z3_get_bool_value(z, c) == Z3_L_TRUE)
    {
      l->discharged_trivial++;
      return;
    }
    Z3_ast n = Z3_mk_not(z, c);
    Z3_inc_ref(z, n);
    int r = fpFeasible(n, true);
    if (r == 0)
      l->discharged_solver++;
    else if (r == 1)
    {
      violation(label, "fp counterexample", {}, {}, n);
      int f = fpFeasible(c);
      if (f == 0)
      {
        S->paths++;
        finishProcess();
      }
      fpc.push_back(c);
    }
    else
    {
      l->unknown++;
      emit("{\"type\":\"inconclusive\",\"label\":" + jstr(label) + ",\"msg\":\"solver unknown\"}");
    }
    return;
  }
  bool na = !ba && !std::isfinite(a), nb = !bb && !std::isfinite(b);
  if (na || nb)
  {
    bool ok = false;
    if (w != Want::EQ_)
    {
      double x = na ? a : 0, y = nb ? b : 0;
      ok = w == Want::LE_ ? x <= y : x < y;
    }
    if (ok)
      l->discharged_trivial++;
    else
      violation(label, "finite versus infinite or NaN", {}, {}, nullptr);
    return;
  }
  Poly d = addScaled(polyOf(a), polyOf(b), Rat(-1));
  Cond good = mkCond(w == Want::EQ_ ? EQ : w == Want::LE_ ? LE : LT, d);
  int q = quick(good);
  if (q == 1)
  {
    l->discharged_trivial++;
    return;
  }
  Cond bad = negate(good);
  int r = q == 0 ? 1 : feasible(bad, true);
  if (r == 0)
  {
    l->discharged_solver++;
    return;
  }
  if (r == 1)
  {
    std::vector<Z3_ast> margin;
    Z3_ast dz = zPoly(internPoly(d));
    Z3_ast hi = Z3_mk_ge(z, dz, zrat(Rat(1) / Rat(8)));
    if (w == Want::EQ_)
    {
      Z3_ast alt[2] = { hi, Z3_mk_le(z, dz, zrat(Rat(-1) / Rat(8))) };
      margin.push_back(Z3_mk_or(z, 2, alt));
    }
    else if (w == Want::LE_)
      margin.push_back(hi);
    violation(label, "counterexample", { bad }, margin, nullptr);
    if (q == 0 || feasible(good) == 0)
    {
      S->paths++;
      finishProcess();
    }
    addPc(good);
    return;
  }
  l->unknown++;
  emit("{\"type\":\"inconclusive\",\"label\":" + jstr(label) + ",\"msg\":\"solver unknown\"}");
}

void assumeRel(double a, double b, unsigned pred)
{
  if (!isBox(a) && !isBox(b))
  {
    if (!concreteCmp(pred, a, b))
      finishProcess();
    return;
  }
  if (opt_fp)
  {
    Z3_ast c = fpPred(pred, fpTerm(a), fpTerm(b));
    Z3_inc_ref(z, c);
    if (fpFeasible(c) == 0)
      finishProcess();
    fpc.push_back(c);
    return;
  }
  Cond c{};
  Cmp r = realCmp(pred, a, b, c);
  if (r == Cmp::True)
    return;
  if (r == Cmp::False || feasible(c) == 0)
    finishProcess();
  addPc(c);
}
}  // namespace

namespace sym
{
Register::Register(const char* name, HarnessFn f) { registry()[name] = f; }

double real(const std::string& name)
{
  std::string n = uniqueName(name);
  if (opt_fp)
  {
    Z3_ast c = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), fpSort);
    Z3_inc_ref(z, c);
    fpterms.push_back(c);
    TermId t = static_cast<TermId>(fpterms.size() - 1);
    fpIndex[Z3_get_ast_id(z, c)] = t;
    fpinputs.emplace_back(n, t);
    return mkbox(t);
  }
  AtomId a = inputAtom(n);
  inputs.emplace_back(n, a);
  return box(atomPoly(a));
}
double real_in(const std::string& name, double lo, double hi)
{
  double x = real(name);
  assume_le(lo, x);
  assume_le(x, hi);
  return x;
}
int choose(const std::string& name, int n)
{
  std::string u = uniqueName(name);
  int v = 0;
  while (v + 1 < n)
  {
    bool child = false;
    doFork(child);
    depth--;
    if (!child)
      break;
    v++;
  }
  choices.push_back({ u, v });
  return v;
}
void assume_lt(double a, double b) { assumeRel(a, b, 4); }
void assume_le(double a, double b) { assumeRel(a, b, 5); }
void assume_eq(double a, double b) { assumeRel(a, b, 1); }
void assume_ne(double a, double b) { assumeRel(a, b, 6); }
void assume(bool c)
{
  if (!c)
    finishProcess();
}
void stop() { endPath(); }
void check(bool c, const std::string& label)
{
  Label* l = checkLabel(label);
  l->reached++;
  if (c)
  {
    l->discharged_trivial++;
    return;
  }
  violation(label, "condition is false on a feasible path", {}, {}, nullptr);
}
void fail(const std::string& label) { check(false, label); }
void check_eq(double a, double b, const std::string& label) { checkRel(a, b, Want::EQ_, label); }
void check_le(double a, double b, const std::string& label) { checkRel(a, b, Want::LE_, label); }
void check_lt(double a, double b, const std::string& label) { checkRel(a, b, Want::LT_, label); }
void check_near(double a, double b, double tol, const std::string& label)
{
  double d = __sym_fsub(a, b);
  checkRel(d, tol, Want::LE_, label);
  checkRel(__sym_fneg(tol), d, Want::LE_, label);
}
void cover(const std::string& label) { coverLabel(label)->reached++; }
void require_cover(const std::string& label) { coverLabel(label); }
void observe(const std::string& label, double v)
{
  if (observations.size() < 400)
    observations.emplace_back(label, v);
}
bool native() { return false; }
bool is_symbolic(double v) { return isBox(v); }
bool fp_mode() { return opt_fp; }
bool thorough() { return opt_thorough; }
void bound(const std::string& text)
{
  if (boundsSeen.insert(text).second)
  {
    std::string cur(S->bounds);
    if (cur.find(text) == std::string::npos && cur.size() + text.size() + 4 < sizeof(S->bounds))
      std::strcat(S->bounds, (text + "\n").c_str());
  }
}
}  // namespace sym

static void zerr(Z3_context c, Z3_error_code e)
{
  std::cerr << "z3 error: " << Z3_get_error_msg(c, e) << std::endl;
  S->engineerror = 1;
}

int main(int argc, char** argv)
{
  std::string out = "/dev/stdout";
  int jobs = 8;
  double timeout = 600;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--harness")
      harness_name = next();
    else if (a == "--out")
      out = next();
    else if (a == "--jobs")
      jobs = std::stoi(next());
    else if (a == "--timeout")
      timeout = std::stod(next());
    else if (a == "--fp")
      opt_fp = true;
    else if (a == "--thorough")
      opt_thorough = true;
    else if (a == "--samples")
      opt_samples = std::stol(next());
    else if (a == "--maxdepth")
      opt_maxdepth = std::stol(next());
    else if (a == "--rlimit")
      opt_rlimit = static_cast<unsigned>(std::stoul(next()));
    else if (a == "--dump-queries")
      dumpq = true;
    else if (a == "--list")
    {
      for (const auto& h : registry())
        std::cout << h.first << "\n";
      return 0;
    }
  }
  auto it = registry().find(harness_name);
  if (it == registry().end())
  {
    std::cerr << "no such harness " << harness_name << "\n";
    return 3;
  }
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (S == MAP_FAILED)
    return 3;
  S->deadline = now() + timeout;
  S->tokens = jobs - 1;
  outfd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  double t0 = now();
  pid_t root = fork();
  if (root == 0)
  {
    setpgid(0, 0);
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_set_error_handler(z, zerr);
    realSort = Z3_mk_real_sort(z);
    intSort = Z3_mk_int_sort(z);
    fpSort = Z3_mk_fpa_sort_double(z);
    rne = Z3_mk_fpa_rne(z);
    Z3_inc_ref(z, Z3_sort_to_ast(z, realSort));
    Z3_inc_ref(z, Z3_sort_to_ast(z, intSort));
    Z3_inc_ref(z, Z3_sort_to_ast(z, fpSort));
    Z3_inc_ref(z, rne);
    monos.push_back({});
    monoIndex[{}] = 0;
    static char altstack[1 << 18];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof(altstack);
    sigaltstack(&ss, nullptr);
    for (int sg : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL })
    {
      struct sigaction sa{};
      sa.sa_handler = crashHandler;
      sa.sa_flags = SA_ONSTACK | SA_NODEFER;
      sigaction(sg, &sa, nullptr);
    }
    fill_on = true;
    try
    {
      it->second();
    }
    catch (const std::exception& e)
    {
      checkLabel("uncaught-exception")->reached++;
      violation("uncaught-exception", std::string("uncaught exception: ") + e.what(), {}, {}, nullptr);
    }
    catch (...)
    {
      checkLabel("uncaught-exception")->reached++;
      violation("uncaught-exception", "uncaught exception", {}, {}, nullptr);
    }
    endPath();
  }
  setpgid(root, root);
  int st = 0;
  bool killed = false;
  for (;;)
  {
    pid_t r = waitpid(root, &st, WNOHANG);
    if (r == root)
      break;
    if (now() > S->deadline + 20 && !killed)
    {
      S->timedout = 1;
      kill(-root, SIGKILL);
      killed = true;
    }
    usleep(2000);
  }
  kill(-root, SIGKILL);
  if (!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    S->engineerror = 1;
  std::ostringstream o;
  o << "{\"type\":\"summary\",\"harness\":" << jstr(harness_name) << ",\"mode\":\"" << (opt_fp ? "fp" : "real") << "\""
    << ",\"paths\":" << S->paths << ",\"forks\":" << S->forks << ",\"decisions\":" << S->decisions << ",\"queries\":" << S->queries
    << ",\"sat\":" << S->sat << ",\"unsat\":" << S->unsat << ",\"unknown\":" << S->unknown << ",\"external\":" << S->external
    << ",\"linear_queries\":" << S->linear_q << ",\"nonlinear_queries\":" << S->nonlinear_q << ",\"fp_queries\":" << S->fp_q
    << ",\"solver_s\":" << static_cast<double>(S->solver_us) / 1e6 << ",\"maxdepth\":" << S->maxdepth << ",\"timedout\":" << S->timedout
    << ",\"unsupported\":" << S->unsupported << ",\"unsupported_msg\":" << jstr(S->unsupported_msg)
    << ",\"boundexceeded\":" << S->boundexceeded << ",\"engineerror\":" << S->engineerror << ",\"killed\":" << S->killed
    << ",\"wall_s\":" << now() - t0 << ",\"bounds\":" << "[";
  {
    std::istringstream bs(S->bounds);
    std::string line;
    bool first = true;
    while (std::getline(bs, line))
    {
      o << (first ? "" : ",") << jstr(line);
      first = false;
    }
  }
  o << "],\"checks\":[";
  bool first = true;
  for (auto& l : S->check)
    if (l.used.load() == 2)
    {
      o << (first ? "" : ",") << "{\"label\":" << jstr(l.name) << ",\"reached\":" << l.reached << ",\"trivial\":" << l.discharged_trivial
        << ",\"solver\":" << l.discharged_solver << ",\"violated\":" << l.violated << ",\"unknown\":" << l.unknown << "}";
      first = false;
    }
  o << "],\"cover\":[";
  first = true;
  for (auto& l : S->cov)
    if (l.used.load() == 2)
    {
      o << (first ? "" : ",") << "{\"label\":" << jstr(l.name) << ",\"reached\":" << l.reached << "}";
      first = false;
    }
  o << "],\"functions\":[";
  first = true;
  for (auto& l : S->fns)
    if (l.used.load() == 2)
    {
      o << (first ? "" : ",") << jstr(l.name);
      first = false;
    }
  o << "]}";
  emit(o.str());
  return 0;
}
