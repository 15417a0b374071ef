#pragma once
#include "sco.h"
namespace hs
{
/** Records what is added and removed, like a solver back end without a solver. */
struct Mock : Model
{
  struct V
  {
    Var v;
    double lb, ub;
    bool removed;
  };
  struct C
  {
    Cnt c;
    AffExpr e;
    bool eq, removed;
  };
  std::vector<V> vs;
  std::vector<C> cs;
  QuadExpr objective;
  bool unknown{ false };
  Var addVar(const std::string& n) override { return addVar(n, -hu::INF, hu::INF); }
  Var addVar(const std::string& n, double lb, double ub) override
  {
    vs.push_back({ Var(std::make_shared<VarRep>(vs.size(), n, this)), lb, ub, false });
    return vs.back().v;
  }
  Cnt add(const AffExpr& e, bool eq)
  {
    cs.push_back({ Cnt(std::make_shared<CntRep>(cs.size(), this)), e, eq, false });
    return cs.back().c;
  }
  Cnt addEqCnt(const AffExpr& e, const std::string&) override { return add(e, true); }
  Cnt addIneqCnt(const AffExpr& e, const std::string&) override { return add(e, false); }
  Cnt addIneqCnt(const QuadExpr&, const std::string&) override { throw std::runtime_error("quadratic constraint"); }
  void removeVars(const VarVector& v) override
  {
    for (const auto& x : v)
    {
      V& r = vs[x.var_rep->index];
      unknown = unknown || r.removed || r.v.var_rep != x.var_rep;
      r.removed = true;
    }
  }
  void removeCnts(const CntVector& v) override
  {
    for (const auto& x : v)
    {
      C& r = cs[x.cnt_rep->index];
      unknown = unknown || r.removed || r.c.cnt_rep != x.cnt_rep;
      r.removed = true;
    }
  }
  void update() override {}
  void setVarBounds(const VarVector& v, const DblVec& l, const DblVec& u) override
  {
    for (std::size_t i = 0; i < v.size(); ++i)
    {
      vs[v[i].var_rep->index].lb = l[i];
      vs[v[i].var_rep->index].ub = u[i];
    }
  }
  std::function<DblVec(const VarVector&)> values;
  DblVec getVarValues(const VarVector& v) const override { return values ? values(v) : DblVec(v.size(), 0.0); }
  std::function<CvxOptStatus()> solver;
  CvxOptStatus optimize() override { return solver ? solver() : CVX_SOLVED; }
  void setObjective(const AffExpr& e) override { objective = QuadExpr(e); }
  void setObjective(const QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  VarVector getVars() const override
  {
    VarVector r;
    for (const auto& v : vs)
      if (!v.removed)
        r.push_back(v.v);
    return r;
  }
  int liveVars() const
  {
    int n = 0;
    for (const auto& v : vs)
      n += !v.removed;
    return n;
  }
  int liveCnts() const
  {
    int n = 0;
    for (const auto& c : cs)
      n += !c.removed;
    return n;
  }
};
}  // namespace hs
