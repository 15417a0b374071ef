/* The part of the Gurobi C API that trajopt uses, as declarations; the harness defines the functions. */
#pragma once
struct _GRBenv;
struct _GRBmodel;
typedef struct _GRBenv GRBenv;
typedef struct _GRBmodel GRBmodel;
#define GRB_INFINITY 1e100
#define GRB_CONTINUOUS 'C'
#define GRB_BINARY 'B'
#define GRB_INTEGER 'I'
#define GRB_LESS_EQUAL '<'
#define GRB_GREATER_EQUAL '>'
#define GRB_EQUAL '='
#define GRB_DBL_ATTR_LB "LB"
#define GRB_DBL_ATTR_UB "UB"
#define GRB_DBL_ATTR_OBJ "Obj"
#define GRB_DBL_ATTR_OBJCON "ObjCon"
#define GRB_DBL_ATTR_X "X"
#define GRB_DBL_ATTR_OBJVAL "ObjVal"
#define GRB_INT_ATTR_STATUS "Status"
#define GRB_INT_ATTR_NUMVARS "NumVars"
#define GRB_INT_ATTR_NUMCONSTRS "NumConstrs"
#define GRB_LOADED 1
#define GRB_OPTIMAL 2
#define GRB_INFEASIBLE 3
#define GRB_INF_OR_UNBD 4
#define GRB_UNBOUNDED 5
#define GRB_CUTOFF 6
#define GRB_ITERATION_LIMIT 7
#define GRB_NODE_LIMIT 8
#define GRB_TIME_LIMIT 9
#define GRB_SOLUTION_LIMIT 10
#define GRB_INTERRUPTED 11
#define GRB_NUMERIC 12
#define GRB_SUBOPTIMAL 13
int GRBloadenv(GRBenv** env, const char* log);
int GRBsetintparam(GRBenv* env, const char* name, int v);
const char* GRBgeterrormsg(GRBenv* env);
int GRBnewmodel(GRBenv* env, GRBmodel** m, const char* name, int n, double* obj, double* lb, double* ub, char* type, char** names);
int GRBfreemodel(GRBmodel* m);
int GRBaddvar(GRBmodel* m, int nz, int* ind, double* val, double obj, double lb, double ub, char type, const char* name);
int GRBaddconstr(GRBmodel* m, int nz, int* ind, double* val, char sense, double rhs, const char* name);
int GRBaddqconstr(GRBmodel* m, int lnz, int* lind, double* lval, int qnz, int* row, int* col, double* qval, char sense, double rhs,
                  const char* name);
int GRBdelvars(GRBmodel* m, int n, int* ind);
int GRBdelconstrs(GRBmodel* m, int n, int* ind);
int GRBsetdblattrlist(GRBmodel* m, const char* attr, int n, int* ind, double* v);
int GRBgetdblattrlist(GRBmodel* m, const char* attr, int n, int* ind, double* v);
int GRBsetdblattrarray(GRBmodel* m, const char* attr, int first, int n, double* v);
int GRBsetdblattr(GRBmodel* m, const char* attr, double v);
int GRBgetdblattr(GRBmodel* m, const char* attr, double* v);
int GRBgetintattr(GRBmodel* m, const char* attr, int* v);
int GRBdelq(GRBmodel* m);
int GRBaddqpterms(GRBmodel* m, int n, int* row, int* col, double* val);
int GRBupdatemodel(GRBmodel* m);
int GRBoptimize(GRBmodel* m);
int GRBcomputeIIS(GRBmodel* m);
int GRBfeasrelax(GRBmodel* m, int type, int minrelax, double* lbpen, double* ubpen, double* rhspen, double* obj);
int GRBwrite(GRBmodel* m, const char* file);
