// Harness interface of the symbolic executor.  The same harness source is compiled twice: instrumented and linked with
// runtime.cpp (solver-based exploration of every path), and plainly, linked with native.cpp (replay of one concrete case
// against the real, uninstrumented code).
#pragma once
#include <string>
#include <vector>

namespace sym
{
// ---- inputs -------------------------------------------------------------------------------------------------------
double real(const std::string& name);                            // any real number (real mode) / any double (fp mode)
double real_in(const std::string& name, double lo, double hi);   // lo <= x <= hi
int choose(const std::string& name, int n);                      // any value of 0 .. n-1 (structure, opcode, status ...)
inline bool flag(const std::string& name) { return choose(name, 2) == 1; }

// ---- preconditions (no fork) --------------------------------------------------------------------------------------
void assume_lt(double a, double b);
void assume_le(double a, double b);
void assume_eq(double a, double b);
void assume_ne(double a, double b);
void assume(bool c);                                             // already decided condition: ends the path if false
void stop();                                                     // end this path here (after the checks of interest)

// ---- obligations --------------------------------------------------------------------------------------------------
void check(bool c, const std::string& label);
void check_eq(double a, double b, const std::string& label);     // infinities and NaN: same class required
void check_le(double a, double b, const std::string& label);
void check_lt(double a, double b, const std::string& label);
void check_near(double a, double b, double tol, const std::string& label);
void fail(const std::string& label);

// ---- evidence -----------------------------------------------------------------------------------------------------
void cover(const std::string& label);                            // this point is reached (vacuity witness)
void require_cover(const std::string& label);                    // the run is vacuous unless some path covers it
void observe(const std::string& label, double v);                // compared between model and native replay
bool native();
bool is_symbolic(double v);
bool fp_mode();
bool thorough();
void bound(const std::string& text);                             // stated bound, copied to the evidence

// called at every heap allocation and release while set: the points where harness/threads.h lets another thread run
extern void (*preempt)();

using HarnessFn = void (*)();
struct Register
{
  Register(const char* name, HarnessFn f);
};
}  // namespace sym

#define SYM_HARNESS(id)                                                                                                \
  static void harness_##id();                                                                                          \
  static sym::Register reg_##id(#id, &harness_##id);                                                                   \
  static void harness_##id()
