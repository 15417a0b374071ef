// Recording replacement of OsqpEigen::Solver.  As in the library, vectors given to Data are kept by reference and read when
// the solver is initialised; update functions change the initialised problem; a failure leaves it unchanged.
#pragma once
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <memory>
#include <OsqpEigen/Settings.hpp>
namespace OsqpEigen
{
enum class ErrorExitFlag
{
  NoError = 0, DataValidationError = 1, SettingsValidationError, LinsysSolverInitError, NonCvxError, MemAllocError,
  WorkspaceNotInitError
};
enum class Status
{
  Solved = 1, SolvedInaccurate, PrimalInfeasible, PrimalInfeasibleInaccurate, DualInfeasible, DualInfeasibleInaccurate,
  MaxIterReached, TimeLimitReached, NonCvx, Sigint, Unsolved
};
struct OsqpData
{
  OSQPInt n, m;
  OSQPCscMatrix *P, *A;
  OSQPFloat *q, *l, *u;
};
struct Problem
{
  Eigen::MatrixXd P, A;
  Eigen::VectorXd q, l, u;
};
class Data
{
public:
  int n{ 0 }, m{ 0 };
  bool hasP{ false }, hasA{ false };
  Eigen::MatrixXd P, A;
  const double *q{ nullptr }, *l{ nullptr }, *u{ nullptr };
  void setNumberOfVariables(int k) { n = k; }
  void setNumberOfConstraints(int k) { m = k; }
  void clearHessianMatrix() { hasP = false; }
  void clearLinearConstraintsMatrix() { hasA = false; }
  template <class D>
  bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& h)
  {
    if (hasP || h.rows() != n || h.cols() != n)
      return false;
    P = h.toDense();
    return hasP = true;
  }
  template <class D>
  bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a)
  {
    if (hasA || a.rows() != m || a.cols() != n)
      return false;
    A = a.toDense();
    return hasA = true;
  }
  bool setGradient(Eigen::Ref<Eigen::VectorXd> g)
  {
    if (g.size() != n)
      return false;
    q = g.data();
    return true;
  }
  bool setBounds(Eigen::Ref<Eigen::VectorXd> lo, Eigen::Ref<Eigen::VectorXd> up)
  {
    if (lo.size() != m || up.size() != m)
      return false;
    l = lo.data();
    u = up.data();
    return true;
  }
  OsqpData* getData() const { return nullptr; }
};
class Solver
{
  std::unique_ptr<Settings> s_{ new Settings };
  std::unique_ptr<Data> d_{ new Data };
  OSQPSolver raw_{};

public:
  // what the harness scripts and records
  static inline bool init_ok{ true };
  static inline int update_fails{ -1 };  // index of the update that fails
  static inline int update_count{ 0 };
  static inline ErrorExitFlag exit_flag{ ErrorExitFlag::NoError };
  static inline Status status{ Status::Solved };
  static inline Eigen::VectorXd answer, x0, y0;
  static inline int solves{ 0 }, inits{ 0 };
  static inline Problem solved;
  Problem p;
  bool initialized{ false };

  const std::unique_ptr<Settings>& settings() const { return s_; }
  const std::unique_ptr<Data>& data() const { return d_; }
  const OSQPSolver* solver() const { return &raw_; }
  bool isInitialized() const { return initialized; }
  bool initSolver()
  {
    ++inits;
    if (!init_ok || initialized || !d_->hasP || !d_->hasA || d_->q == nullptr || d_->l == nullptr)
      return false;
    p.P = d_->P;
    p.A = d_->A;
    p.q = Eigen::Map<const Eigen::VectorXd>(d_->q, d_->n);
    p.l = Eigen::Map<const Eigen::VectorXd>(d_->l, d_->m);
    p.u = Eigen::Map<const Eigen::VectorXd>(d_->u, d_->m);
    return initialized = true;
  }
  void clearSolver() { initialized = false; }
  bool upd() { return initialized && update_count++ != update_fails; }
  template <class D>
  bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& h)
  {
    if (!upd() || h.rows() != p.P.rows())
      return false;
    p.P = h.toDense();
    return true;
  }
  template <class D>
  bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a)
  {
    if (!upd() || a.rows() != p.A.rows() || a.cols() != p.A.cols())
      return false;
    p.A = a.toDense();
    return true;
  }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& g)
  {
    if (!upd() || g.size() != p.q.size())
      return false;
    p.q = g;
    return true;
  }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& l, const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    if (!upd() || l.size() != p.l.size() || u.size() != p.u.size())
      return false;
    p.l = l;
    p.u = u;
    return true;
  }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& l)
  {
    if (!upd())
      return false;
    p.l = l;
    return true;
  }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    if (!upd())
      return false;
    p.u = u;
    return true;
  }
  template <class X, class Y>
  bool setWarmStart(const X& x, const Y& y)
  {
    x0 = x;
    y0 = y;
    return true;
  }
  ErrorExitFlag solveProblem()
  {
    ++solves;
    solved = p;
    return exit_flag;
  }
  Status getStatus() const { return status; }
  const Eigen::VectorXd& getSolution() { return answer; }
};
}  // namespace OsqpEigen
