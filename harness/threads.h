#pragma once
/** Two threads on one model, every interleaving within a bound on context switches.
 * The threads are coroutines. A switch can happen at every heap allocation and release, before a mutex is taken
 * and after it is released; which switches happen is symbolic. A thread that needs a mutex held by another one
 * waits. Between two such points the code runs without interruption. */
#include "sco.h"
#include <dlfcn.h>
#include <functional>
#include <map>
#include <pthread.h>
#include <ucontext.h>

namespace hs
{
struct Scheduler
{
  struct Thread
  {
    ucontext_t ctx{};
    std::vector<char> stack;
    std::function<void()> body;
    bool done{ false };
    const void* waits{ nullptr };
  };
  static Scheduler*& now()
  {
    static Scheduler* s = nullptr;
    return s;
  }
  std::vector<std::unique_ptr<Thread>> threads;
  std::map<const void*, std::pair<int, int>> held;  // mutex -> owner, depth
  ucontext_t main{};
  int cur{ -1 }, left{ 0 }, points{ 0 };
  bool inside{ false };

  static void entry()
  {
    Scheduler* s = now();
    s->inside = false;
    s->threads[static_cast<std::size_t>(s->cur)]->body();
    s->inside = true;
    s->threads[static_cast<std::size_t>(s->cur)]->done = true;
    s->leave();
  }
  std::vector<int> runnable(int but) const
  {
    std::vector<int> r;
    for (int i = 0; i < static_cast<int>(threads.size()); ++i)
      if (i != but && !threads[i]->done && (threads[i]->waits == nullptr || held.count(threads[i]->waits) == 0))
        r.push_back(i);
    return r;
  }
  void go(int to)
  {
    const int from = cur;
    cur = to;
    threads[to]->waits = nullptr;
    swapcontext(from < 0 ? &main : &threads[from]->ctx, &threads[to]->ctx);
  }
  /** the current thread cannot go on */
  void leave()
  {
    const std::vector<int> r = runnable(cur);
    if (r.empty())
    {
      bool all = true;
      for (const auto& t : threads)
        all = all && t->done;
      sym::check(all, "no-deadlock");
      if (!all)
        sym::stop();
      setcontext(&main);
    }
    go(r[r.size() == 1 ? 0 : static_cast<std::size_t>(sym::choose("resume_" + std::to_string(points++), static_cast<int>(r.size())))]);
  }
  void maybe()
  {
    const std::vector<int> r = runnable(cur);
    if (r.empty() || !sym::flag("switch_" + std::to_string(points++)))
      return;
    --left;
    sym::cover("switched");
    go(r[0]);
  }
  static void point()
  {
    Scheduler* s = now();
    if (s == nullptr || s->inside || s->left == 0)
      return;
    s->inside = true;
    s->maybe();
    s->inside = false;
  }
  void lock(const void* m, bool recursive)
  {
    point();
    inside = true;
    auto it = held.find(m);
    if (it != held.end() && it->second.first == cur)
    {
      sym::check(recursive, "no-deadlock");
      if (!recursive)
        sym::stop();
      ++it->second.second;
      inside = false;
      return;
    }
    while (held.count(m) != 0)
    {
      sym::cover("waited");
      threads[cur]->waits = m;
      leave();
      inside = true;
    }
    held[m] = { cur, 1 };
    inside = false;
  }
  void unlock(const void* m)
  {
    inside = true;
    auto it = held.find(m);
    const bool mine = it != held.end() && it->second.first == cur;
    sym::check(mine, "mutex-owned");
    if (mine && --it->second.second == 0)
      held.erase(it);
    inside = false;
    point();
  }
  static bool active() { return now() != nullptr && !now()->inside; }
  void run(std::vector<std::function<void()>> bodies, int switches, int starters)
  {
    left = switches;
    inside = true;
    for (auto& b : bodies)
    {
      threads.push_back(std::make_unique<Thread>());
      Thread& t = *threads.back();
      t.body = std::move(b);
      t.stack.resize(1 << 19);
      getcontext(&t.ctx);
      t.ctx.uc_stack.ss_sp = t.stack.data();
      t.ctx.uc_stack.ss_size = t.stack.size();
      t.ctx.uc_link = nullptr;
      makecontext(&t.ctx, &Scheduler::entry, 0);
    }
    now() = this;
    sym::preempt = &Scheduler::point;
    const int first = sym::choose("first_thread", starters);
    go(first);
    inside = true;
    sym::preempt = nullptr;
    now() = nullptr;
  }
};
}  // namespace hs

#define HS_REAL(name) reinterpret_cast<int (*)(decltype(m))>(dlsym(RTLD_NEXT, #name))(m)
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (!hs::Scheduler::active())
    return HS_REAL(pthread_mutex_lock);
  hs::Scheduler::now()->lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP);
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
  if (!hs::Scheduler::active())
    return HS_REAL(pthread_mutex_unlock);
  hs::Scheduler::now()->unlock(m);
  return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
  if (!hs::Scheduler::active())
    return HS_REAL(pthread_rwlock_wrlock);
  hs::Scheduler::now()->lock(m, false);
  return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
  if (!hs::Scheduler::active())
    return HS_REAL(pthread_rwlock_rdlock);
  hs::Scheduler::now()->lock(m, false);  // readers exclude each other: fewer interleavings, none that is impossible
  return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
  if (!hs::Scheduler::active())
    return HS_REAL(pthread_rwlock_unlock);
  hs::Scheduler::now()->unlock(m);
  return 0;
}

namespace hs
{
/** What a model that two threads have extended must contain. */
struct Shared
{
  VarVector v;
  DblVec lb, ub;
  std::vector<std::pair<AffExpr, bool>> cs;  // expression, equality
};
/** Two threads convexify one term each: they add their variables with bounds, and constraints on them. */
inline Shared extend_concurrently(Model& model)
{
  // a shared model whose storage is or is not about to be reallocated
  const int n0 = 1 + (sym::thorough() ? sym::choose("variables_before", 2) : 0);
  std::map<std::string, std::pair<double, double>> bounds;
  std::map<std::string, std::pair<AffExpr, bool>> exprs;
  VarVector mine[2];
  CntVector rows[2];
  std::vector<std::pair<AffExpr, bool>> row_exprs[2];
  for (int i = 0; i < n0; ++i)
    model.addVar("base" + std::to_string(i), -1 - i, 2 + i);
  model.update();
  const Var base = model.getVars().front();
  double lo[2][2], hi[2][2];
  int count[2];
  bool eq[2];
  const bool constrain = sym::flag("constraints");
  for (int t = 0; t < 2; ++t)
  {
    const std::string s = t == 0 ? "a" : "b";
    count[t] = t == 0 || constrain ? 1 : 2;
    eq[t] = t == 1;
    for (int k = 0; k < count[t]; ++k)
    {
      lo[t][k] = sym::real_in(s + std::to_string(k) + "_lb", -10, 0);
      hi[t][k] = sym::real_in(s + std::to_string(k) + "_ub", 0, 10);
    }
  }
  auto body = [&](int t) {
    return [&, t]() {
      const std::string s = t == 0 ? "a" : "b";
      for (int k = 0; k < count[t]; ++k)
        mine[t].push_back(model.addVar(s + std::to_string(k), lo[t][k], hi[t][k]));
      if (!constrain)
        return;
      AffExpr e(3 + t);
      e.vars.push_back(base);
      e.coeffs.push_back(5 + t);
      row_exprs[t].emplace_back(e, eq[t]);
      rows[t].push_back(eq[t] ? model.addEqCnt(e, "") : model.addIneqCnt(e, ""));
    };
  };
  Scheduler sch;
  sch.run({ body(0), body(1) }, sym::thorough() ? 3 : 2, constrain ? 1 : 2);
  model.update();
  Shared out;
  out.v = model.getVars();
  const std::size_t n = static_cast<std::size_t>(n0 + count[0] + count[1]);
  sym::check(out.v.size() == n, "every-variable-once");
  if (out.v.size() != n)
    sym::stop();
  out.lb.assign(n, 0);
  out.ub.assign(n, 0);
  std::vector<bool> seen(n, false);
  auto place = [&](const Var& v, const std::string& name, double l, double u) {
    const std::size_t i = v.var_rep->index;
    const bool ok = i < n && !seen[i] && out.v[i].var_rep == v.var_rep && v.var_rep->name == name;
    sym::check(ok, "every-variable-once");
    if (!ok)
      sym::stop();
    seen[i] = true;
    out.lb[i] = l;
    out.ub[i] = u;
  };
  for (int i = 0; i < n0; ++i)
    place(out.v[static_cast<std::size_t>(i)], "base" + std::to_string(i), -1 - i, 2 + i);
  std::size_t m = 0;
  for (int t = 0; t < 2; ++t)
  {
    for (int k = 0; k < count[t]; ++k)
      place(mine[t][static_cast<std::size_t>(k)], (t == 0 ? "a" : "b") + std::to_string(k), lo[t][k], hi[t][k]);
    m += rows[t].size();
  }
  out.cs.resize(m);
  std::vector<bool> used(m, false);
  for (int t = 0; t < 2; ++t)
    for (std::size_t k = 0; k < rows[t].size(); ++k)
    {
      const std::size_t i = rows[t][k].cnt_rep->index;
      const bool ok = i < m && !used[i];
      sym::check(ok, "every-constraint-once");
      if (!ok)
        sym::stop();
      used[i] = true;
      out.cs[i] = row_exprs[t][k];
    }
  return out;
}
}  // namespace hs
