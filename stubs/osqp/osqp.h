// The part of the OSQP 1.0 API that trajopt uses, as declarations; the harness defines the functions.
#pragma once
#include <stddef.h>
typedef long long OSQPInt;
typedef double OSQPFloat;
#define OSQP_INFTY ((OSQPFloat)1e30)
#define OSQP_NULL 0
typedef struct
{
  OSQPInt m, n;
  OSQPInt *p, *i;
  OSQPFloat* x;
  OSQPInt nzmax, nz, owned;
} OSQPCscMatrix;
typedef struct
{
  OSQPInt device, linsys_solver, allocate_solution, verbose, profiler_level, warm_starting, scaling, polishing;
  OSQPFloat rho;
  OSQPInt rho_is_vec;
  OSQPFloat sigma, alpha;
  OSQPInt adaptive_rho, max_iter;
  OSQPFloat eps_abs, eps_rel;
  OSQPInt check_dualgap;
} OSQPSettings;
typedef struct
{
  OSQPFloat *x, *y, *prim_inf_cert, *dual_inf_cert;
} OSQPSolution;
typedef struct
{
  OSQPInt status_val;
} OSQPInfo;
typedef struct
{
  OSQPSettings* settings;
  OSQPSolution* solution;
  OSQPInfo* info;
  void* work;
} OSQPSolver;
enum osqp_status_type
{
  OSQP_SOLVED = 1, OSQP_SOLVED_INACCURATE, OSQP_PRIMAL_INFEASIBLE, OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  OSQP_DUAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_NON_CVX,
  OSQP_SIGINT, OSQP_UNSOLVED
};
enum osqp_error_type
{
  OSQP_NO_ERROR = 0, OSQP_DATA_VALIDATION_ERROR = 1, OSQP_SETTINGS_VALIDATION_ERROR, OSQP_LINSYS_SOLVER_INIT_ERROR,
  OSQP_NONCVX_ERROR, OSQP_MEM_ALLOC_ERROR, OSQP_WORKSPACE_NOT_INIT_ERROR, OSQP_ALGEBRA_LOAD_ERROR, OSQP_FOPEN_ERROR,
  OSQP_CODEGEN_DEFINES_ERROR, OSQP_DATA_NOT_INITIALIZED, OSQP_FUNC_NOT_IMPLEMENTED
};
#ifdef __cplusplus
extern "C" {
#endif
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nz, OSQPFloat* x, OSQPInt* i, OSQPInt* p);
void osqp_set_default_settings(OSQPSettings*);
OSQPInt osqp_setup(OSQPSolver**, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings*);
OSQPInt osqp_solve(OSQPSolver*);
OSQPInt osqp_cleanup(OSQPSolver*);
OSQPInt osqp_warm_start(OSQPSolver*, const OSQPFloat* x, const OSQPFloat* y);
OSQPInt osqp_update_data_vec(OSQPSolver*, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u);
OSQPInt osqp_update_data_mat(OSQPSolver*, const OSQPFloat* Px, const OSQPInt* Pi, OSQPInt Pn, const OSQPFloat* Ax,
                             const OSQPInt* Ai, OSQPInt An);
#ifdef __cplusplus
}
#endif
