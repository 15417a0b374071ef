// Replay side of the harness interface: one concrete case, run on the plainly compiled code under test.
#include "sym.h"
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <unistd.h>

namespace
{
std::map<std::string, sym::HarnessFn>& registry()
{
  static std::map<std::string, sym::HarnessFn> r;
  return r;
}
std::map<std::string, double> ins;
std::map<std::string, int> chs;
std::map<std::string, int> counts;
bool optfp = false, optthorough = false, obs = false;
int failures = 0;
bool fill_on = false;
uint64_t fill_bits = 0;
std::string uniq(const std::string& n)
{
  int k = counts[n]++;
  return k == 0 ? n : n + "#" + std::to_string(k);
}
void out(const std::string& s)
{
  std::string t = s + "\n";
  ssize_t r = write(1, t.data(), t.size());
  (void)r;
}
void done(int code)
{
  out(std::string("REPLAY-END failures=") + std::to_string(failures));
  std::cout.flush();
  _exit(code);
}
void failLabel(const std::string& l, const std::string& m)
{
  failures++;
  out("REPLAY-FAIL " + l + " | " + m);
}
std::string num(double d)
{
  char b[64];
  snprintf(b, sizeof(b), "%.17g", d);
  return b;
}
void ob(const std::string& l, double v)
{
  if (obs)
    out("OBS " + l + "\t" + num(v));
}
double tolr(double a, double b) { return optfp ? 0.0 : 1e-5 * (1.0 + std::fabs(a) + std::fabs(b)); }
void onSignal(int s)
{
  signal(s, SIG_DFL);
  failures++;
  out(std::string("REPLAY-FAIL crash:") + strsignal(s) + " | abnormal termination");
  _exit(1);
}
}  // namespace

extern "C" void* __real_malloc(size_t n);
static void fillMem(void* p, size_t n)
{
  if (!fill_on || p == nullptr || n > (1u << 22))
    return;
  uint64_t* q = static_cast<uint64_t*>(p);
  for (size_t i = 0; i < n / 8; ++i)
    q[i] = fill_bits;
}
extern "C" void* __wrap_malloc(size_t n)
{
  void* p = __real_malloc(n);
  fillMem(p, n);
  return p;
}
namespace sym { void (*preempt)() = nullptr; }
static inline void preemptPoint()
{
  if (sym::preempt != nullptr)
    sym::preempt();
}
void* operator new(size_t n)
{
  preemptPoint();
  void* p = __real_malloc(n == 0 ? 1 : n);
  if (p == nullptr)
    throw std::bad_alloc();
  fillMem(p, n);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void release(void* p) noexcept
{
  preemptPoint();
  free(p);
}
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }

namespace sym
{
Register::Register(const char* name, HarnessFn f) { registry()[name] = f; }
double real(const std::string& name)
{
  auto it = ins.find(uniq(name));
  return it == ins.end() ? 0.0 : it->second;
}
double real_in(const std::string& name, double lo, double hi)
{
  double x = real(name);
  return x < lo ? lo : x > hi ? hi : x;
}
int choose(const std::string& name, int n)
{
  auto it = chs.find(uniq(name));
  int v = it == chs.end() ? 0 : it->second;
  return v < n ? v : 0;
}
static void asm_(bool ok)
{
  if (!ok)
  {
    out("REPLAY-ASSUME-FAILED");
    done(failures != 0 ? 1 : 0);
  }
}
void assume_lt(double a, double b) { asm_(a < b + tolr(a, b)); }
void assume_le(double a, double b) { asm_(a <= b + tolr(a, b)); }
void assume_eq(double a, double b) { asm_(a == b || std::fabs(a - b) <= tolr(a, b)); }
void assume_ne(double a, double b) { asm_(a != b); }
void assume(bool c) { asm_(c); }
void stop() { done(failures != 0 ? 1 : 0); }
void check(bool c, const std::string& label)
{
  if (!c)
    failLabel(label, "condition false");
}
void fail(const std::string& label) { failLabel(label, "reached"); }
void check_eq(double a, double b, const std::string& label)
{
  ob(label + ":a", a);
  ob(label + ":b", b);
  if ((std::isnan(a) && std::isnan(b)) || a == b)
    return;
  if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tolr(a, b))
    return;
  failLabel(label, num(a) + " != " + num(b));
}
void check_le(double a, double b, const std::string& label)
{
  ob(label + ":a", a);
  ob(label + ":b", b);
  if (!(a <= b + (std::isfinite(a) && std::isfinite(b) ? tolr(a, b) : 0.0)))
    failLabel(label, num(a) + " > " + num(b));
}
void check_lt(double a, double b, const std::string& label)
{
  ob(label + ":a", a);
  ob(label + ":b", b);
  if (!(a < b))
    failLabel(label, num(a) + " >= " + num(b));
}
void check_near(double a, double b, double tol, const std::string& label)
{
  ob(label + ":a", a - b);
  ob(label + ":b", tol);
  ob(label + ":a", -tol);
  ob(label + ":b", a - b);
  if (!(std::fabs(a - b) <= tol + tolr(a, b)))
    failLabel(label, num(a) + " !~ " + num(b));
}
void cover(const std::string&) {}
void require_cover(const std::string&) {}
void observe(const std::string& l, double v) { ob(l, v); }
bool native() { return true; }
bool is_symbolic(double) { return false; }
bool fp_mode() { return optfp; }
bool thorough() { return optthorough; }
void bound(const std::string&) {}
}  // namespace sym

int main(int argc, char** argv)
{
  std::string h, file;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--harness")
      h = argv[++i];
    else if (a == "--replay")
      file = argv[++i];
    else if (a == "--fp")
      optfp = true;
    else if (a == "--thorough")
      optthorough = true;
    else if (a == "--obs")
      obs = true;
  }
  std::ifstream f(file);
  if (!f)
    return 3;
  std::string line;
  while (std::getline(f, line))
  {
    // "in <value> <name>"  |  "ch <value> <name>"
    std::size_t s1 = line.find(' ');
    std::size_t s2 = line.find(' ', s1 + 1);
    if (s1 == std::string::npos || s2 == std::string::npos)
      continue;
    std::string k = line.substr(0, s1), v = line.substr(s1 + 1, s2 - s1 - 1), n = line.substr(s2 + 1);
    if (k == "in")
      ins[n] = v == "nan" ? std::nan("") : std::strtod(v.c_str(), nullptr);
    else if (k == "ch")
      chs[n] = std::atoi(v.c_str());
  }
  auto it = registry().find(h);
  if (it == registry().end())
    return 3;
  double u = ins.count("uninit") ? ins["uninit"] : 0.0;
  std::memcpy(&fill_bits, &u, 8);
  if (!ins.count("uninit"))
    fill_bits = 0x40c3880000000000ULL;  // 10000.0
  for (int sg : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL })
    signal(sg, onSignal);
  fill_on = true;
  try
  {
    it->second();
  }
  catch (const std::exception& e)
  {
    failLabel("uncaught-exception", e.what());
  }
  catch (...)
  {
    failLabel("uncaught-exception", "unknown");
  }
  done(failures != 0 ? 1 : 0);
}
