// The part of the qpOASES 3.2 API that trajopt uses, as declarations; the harness defines the functions of SQProblem.
#pragma once
namespace qpOASES
{
typedef double real_t;
typedef int int_t;
typedef int sparse_int_t;
const real_t INFTY = 1.0e20;
enum PrintLevel { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH };
enum BooleanType { BT_FALSE, BT_TRUE };
enum returnValue
{
  TERMINAL_LIST_ELEMENT = -1,
  SUCCESSFUL_RETURN = 0,
  RET_DIV_BY_ZERO,
  RET_INVALID_ARGUMENTS = 4,
  RET_QP_SOLUTION_STARTED = 22,
  RET_INIT_FAILED = 33,
  RET_INIT_FAILED_TQ,
  RET_INIT_FAILED_CHOLESKY,
  RET_INIT_FAILED_HOTSTART,
  RET_INIT_FAILED_INFEASIBILITY,
  RET_INIT_FAILED_UNBOUNDEDNESS,
  RET_INIT_FAILED_REGULARISATION,
  RET_HOTSTART_FAILED = 53,
  RET_HOTSTART_STOPPED_INFEASIBILITY = 61,
  RET_HOTSTART_STOPPED_UNBOUNDEDNESS,
  RET_MAX_NWSR_REACHED = 64
};
struct Options
{
  PrintLevel printLevel = PL_MEDIUM;
  BooleanType enableRegularisation = BT_FALSE;
  bool mpc = false, consistent = false;
  returnValue setToMPC()
  {
    mpc = true;
    return SUCCESSFUL_RETURN;
  }
  returnValue ensureConsistency()
  {
    consistent = true;
    return SUCCESSFUL_RETURN;
  }
};
/** column compressed, the arrays stay with the caller */
class SparseMatrix
{
public:
  SparseMatrix() = default;
  SparseMatrix(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : nRows(nr), nCols(nc), ir(r), jc(c), val(v) {}
  int_t nRows = 0, nCols = 0;
  sparse_int_t *ir = nullptr, *jc = nullptr;
  real_t* val = nullptr;
  bool diag = false;
  /** position of the first entry at or below the diagonal of every column: needed to use a matrix as symmetric */
  sparse_int_t* createDiagInfo()
  {
    diag = true;
    return jc;
  }
};
class SymSparseMat : public SparseMatrix
{
public:
  using SparseMatrix::SparseMatrix;
};
class SQProblem
{
public:
  SQProblem(int_t nV, int_t nC);
  ~SQProblem();
  SQProblem(const SQProblem&) = delete;
  returnValue setOptions(const Options&);
  int_t getNV() const;
  int_t getNC() const;
  BooleanType isInitialised() const;
  /** nWSR: in: most working set recalculations; out: those performed */
  returnValue init(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                   const real_t* ubA, int_t& nWSR, real_t* cputime);
  returnValue hotstart(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub,
                       const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t* cputime);
  returnValue getPrimalSolution(real_t* x) const;
  struct Work;
  Work* w;
};
}  // namespace qpOASES
