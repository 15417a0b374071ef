// Expression algebra of trajopt_sco and its translation to sparse matrices.
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/solver_utils.cpp
#include "sco.h"
#include <trajopt_sco/solver_utils.hpp>
using namespace sco;

SYM_HARNESS(affine)
{
  sym::bound("2 affine expressions of up to 2 terms (repeats allowed) over 2 variables; every operation and operator");
  VarVector v = hs::vars(2);
  DblVec x = hs::dbl("x", 2);
  AffExpr a = hs::aff("a", v, 2), b = hs::aff("b", v, sym::thorough() ? 2 : 1);
  const double c = sym::real_in("c", -100, 100);
  const Var& y = v[1];
  const double av = hs::val(a, x), bv = hs::val(b, x), yv = x[1];
  sym::check_eq(a.value(x), av, "value");
  sym::check_eq(a.value(x.data()), av, "value");
  sym::check_eq(hs::val(AffExpr(y), x), yv, "from-variable");
  sym::check_eq(hs::val(AffExpr(c), x), c, "from-constant");
  auto eq = [&](const AffExpr& e, double r, const char* label) {
    sym::check(e.coeffs.size() == e.vars.size(), "well-formed");
    sym::check_eq(hs::val(e, x), r, label);
  };
  AffExpr t = a;
  exprScale(t, c);
  eq(t, av * c, "scale");
  t = a; exprInc(t, c); eq(t, av + c, "increment");
  t = a; exprInc(t, b); eq(t, av + bv, "increment");
  t = a; exprInc(t, AffExpr(b)); eq(t, av + bv, "increment");
  t = a; exprInc(t, y); eq(t, av + yv, "increment");
  t = a; exprDec(t, c); eq(t, av - c, "decrement");
  t = a; exprDec(t, b); eq(t, av - bv, "decrement");
  t = a; exprDec(t, y); eq(t, av - yv, "decrement");
  eq(exprMult(y, c), yv * c, "multiply");
  eq(exprMult(a, c), av * c, "multiply");
  eq(exprAdd(a, c), av + c, "add");
  eq(exprAdd(a, y), av + yv, "add");
  eq(exprAdd(a, b), av + bv, "add");
  eq(exprSub(a, c), av - c, "subtract");
  eq(exprSub(a, y), av - yv, "subtract");
  eq(exprSub(a, b), av - bv, "subtract");
  eq(a + c, av + c, "operator+");
  eq(a + y, av + yv, "operator+");
  eq(a + b, av + bv, "operator+");
  eq(y + a, av + yv, "operator+");
  eq(y + c, yv + c, "operator+");
  eq(y + v[0], yv + x[0], "operator+");
  eq(a - c, av - c, "operator-");
  eq(a - y, av - yv, "operator-");
  eq(a - b, av - bv, "operator-");
  eq(y - a, yv - av, "operator-");
  eq(y - c, yv - c, "operator-");
  eq(y - v[0], yv - x[0], "operator-");
  eq(c * y, c * yv, "operator*");
  eq(c * a, c * av, "operator*");
  eq(y * c, c * yv, "operator*");
  eq(a * c, c * av, "operator*");
  eq(-y, -yv, "operator-");
  eq(-a, -av, "operator-");
  // the operands are left as they were
  sym::check_eq(hs::val(a, x), av, "operands-unchanged");
  sym::check_eq(hs::val(b, x), bv, "operands-unchanged");
}

SYM_HARNESS(quadratic)
{
  sym::bound("2 quadratic expressions of up to 1 linear and 1 quadratic term over 2 variables; every operation and operator");
  VarVector v = hs::vars(2);
  DblVec x = hs::dbl("x", 2);
  QuadExpr p = hs::quad("p", v, 1, 1), q = hs::quad("q", v, 1, 1, false);
  AffExpr a = hs::aff("a", v, 1, false);
  const double c = sym::real_in("c", -100, 100);
  const Var& y = v[0];
  const double pv = hs::val(p, x), qv = hs::val(q, x), av = hs::val(a, x), yv = x[0];
  sym::check_eq(p.value(x), pv, "value");
  sym::check_eq(p.value(x.data()), pv, "value");
  sym::check_eq(hs::val(QuadExpr(y), x), yv, "from-variable");
  sym::check_eq(hs::val(QuadExpr(c), x), c, "from-constant");
  sym::check_eq(hs::val(QuadExpr(a), x), av, "from-affine");
  auto eq = [&](const QuadExpr& e, double r, const char* label) {
    sym::check(e.affexpr.coeffs.size() == e.affexpr.vars.size() && e.coeffs.size() == e.vars1.size() && e.coeffs.size() == e.vars2.size(), "well-formed");
    sym::check_eq(hs::val(e, x), r, label);
  };
  QuadExpr t = p;
  exprScale(t, c);
  eq(t, pv * c, "scale");
  t = p; exprInc(t, c); eq(t, pv + c, "increment");
  t = p; exprInc(t, y); eq(t, pv + yv, "increment");
  t = p; exprInc(t, a); eq(t, pv + av, "increment");
  t = p; exprInc(t, AffExpr(a)); eq(t, pv + av, "increment");
  t = p; exprInc(t, q); eq(t, pv + qv, "increment");
  t = p; exprInc(t, QuadExpr(q)); eq(t, pv + qv, "increment");
  t = p; exprDec(t, c); eq(t, pv - c, "decrement");
  t = p; exprDec(t, y); eq(t, pv - yv, "decrement");
  t = p; exprDec(t, a); eq(t, pv - av, "decrement");
  t = p; exprDec(t, AffExpr(a)); eq(t, pv - av, "decrement");
  t = p; exprDec(t, q); eq(t, pv - qv, "decrement");
  eq(exprMult(p, c), pv * c, "multiply");
  eq(exprAdd(p, c), pv + c, "add");
  eq(exprAdd(p, y), pv + yv, "add");
  eq(exprAdd(p, a), pv + av, "add");
  eq(exprAdd(p, q), pv + qv, "add");
  eq(exprSub(p, c), pv - c, "subtract");
  eq(exprSub(p, y), pv - yv, "subtract");
  eq(exprSub(p, a), pv - av, "subtract");
  eq(exprSub(p, q), pv - qv, "subtract");
  eq(p + c, pv + c, "operator+");
  eq(p + y, pv + yv, "operator+");
  eq(p + a, pv + av, "operator+");
  eq(y + p, pv + yv, "operator+");
  eq(a + p, pv + av, "operator+");
  eq(p + q, pv + qv, "operator+");
  eq(p - c, pv - c, "operator-");
  eq(p - y, pv - yv, "operator-");
  eq(p - a, pv - av, "operator-");
  eq(y - p, yv - pv, "operator-");
  eq(a - p, av - pv, "operator-");
  eq(p - q, pv - qv, "operator-");
  eq(c * p, c * pv, "operator*");
  eq(p * c, c * pv, "operator*");
  sym::check_eq(hs::val(p, x), pv, "operands-unchanged");
  sym::check_eq(hs::val(q, x), qv, "operands-unchanged");
}

SYM_HARNESS(products)
{
  sym::bound("products and squares of affine expressions of up to 2 terms (3 thorough) over 2 variables, repeats allowed");
  VarVector v = hs::vars(2);
  DblVec x = hs::dbl("x", 2);
  AffExpr a = hs::aff("a", v, sym::thorough() ? 3 : 2), b = hs::aff("b", v, 2);
  QuadExpr m = exprMult(a, b), s = exprSquare(a), sv = exprSquare(v[1]);
  sym::check(m.coeffs.size() == m.vars1.size() && m.coeffs.size() == m.vars2.size() && m.affexpr.coeffs.size() == m.affexpr.vars.size(), "well-formed");
  sym::check(s.coeffs.size() == s.vars1.size() && s.coeffs.size() == s.vars2.size() && s.affexpr.coeffs.size() == s.affexpr.vars.size(), "well-formed");
  const double av = hs::val(a, x), bv = hs::val(b, x);
  sym::check_eq(hs::val(m, x), av * bv, "product");
  sym::check_eq(hs::val(s, x), av * av, "square");
  sym::check_eq(hs::val(sv, x), x[1] * x[1], "square-of-variable");
}

SYM_HARNESS(squares)
{
  sym::bound("the square of an affine expression of 3 terms over 2 variables, and of 4 terms over 4 variables, any coefficients, none or some exactly zero");
  const bool many = sym::flag("many");
  VarVector v = hs::vars(many ? 4 : 2);
  DblVec x = hs::dbl("x", many ? 4 : 2);
  AffExpr a(sym::real_in("a_const", -100, 100));
  const int zero = sym::choose("zero", many ? 5 : 4) - 1;
  for (int i = 0; i < (many ? 4 : 3); ++i)
  {
    a.vars.push_back(v[static_cast<std::size_t>(many ? i : sym::choose("var" + std::to_string(i), 2))]);
    a.coeffs.push_back(i == zero ? 0 : sym::real_in("coeff" + std::to_string(i), -100, 100));
  }
  const double av = hs::val(a, x);
  QuadExpr s = exprSquare(a);
  sym::check(s.coeffs.size() == s.vars1.size() && s.coeffs.size() == s.vars2.size() && s.affexpr.coeffs.size() == s.affexpr.vars.size(), "well-formed");
  sym::check_eq(hs::val(s, x), av * av, "square");
  AffExpr b = a;
  std::reverse(b.vars.begin(), b.vars.end());
  b.constant = sym::real_in("b_const", -100, 100);
  const double bv = hs::val(b, x);
  QuadExpr m = exprMult(a, b);
  sym::check(m.coeffs.size() == m.vars1.size() && m.coeffs.size() == m.vars2.size() && m.affexpr.coeffs.size() == m.affexpr.vars.size(), "well-formed");
  sym::check_eq(hs::val(m, x), av * bv, "product");
}

SYM_HARNESS(cleanup)
{
  sym::bound("affine expression of 2 terms, coefficients either at most 1e-7 or at least 1e-6 in size; dot product of 2 variables");
  VarVector v = hs::vars(2);
  DblVec x = hs::dbl("x", 2);
  AffExpr a = hs::aff("a", v, 2, false);
  double expect = a.constant;
  for (std::size_t i = 0; i < 2; ++i)
    if (hu::absv(a.coeffs[i]) > 1e-7)
      expect += a.coeffs[i] * x[a.vars[i].var_rep->index];
  AffExpr c = cleanupAff(a);
  sym::check(c.coeffs.size() == c.vars.size(), "well-formed");
  sym::check_eq(hs::val(c, x), expect, "cleanup");
  Eigen::VectorXd d = hu::vec("d", 2);
  AffExpr e = varDot(d, v);
  sym::check_eq(hs::val(e, x), d(0) * x[0] + d(1) * x[1], "dot");
}

SYM_HARNESS(sparse_affine)
{
  sym::bound("affine expressions of up to 3 terms over 3 variables, repeats and zero coefficients allowed; reused output objects");
  sym::require_cover("refused");
  VarVector v = hs::vars(3);
  Eigen::SparseVector<double> s;
  if (sym::flag("reused"))
    exprToEigen(3.0 * v[2] + 1.0, s, 5);
  AffExpr e = hs::aff("e", v, 3);
  const int n = 1 + sym::choose("n", 4);
  bool outside = false;
  for (const auto& y : e.vars)
    outside = outside || static_cast<int>(y.var_rep->index) >= n;
  bool thrown = false;
  try
  {
    exprToEigen(e, s, n);
  }
  catch (const std::runtime_error&)
  {
    thrown = true;
  }
  sym::check(thrown == outside, "range");
  if (thrown)
  {
    sym::cover("refused");
    return;
  }
  sym::check(s.size() == n, "size");
  Eigen::VectorXd d = s, r = Eigen::VectorXd::Zero(n);
  for (std::size_t i = 0; i < e.size(); ++i)
    r(static_cast<Eigen::Index>(e.vars[i].var_rep->index)) += e.coeffs[i];
  for (int i = 0; i < n; ++i)
    sym::check_eq(d(i), r(i), "coefficient");
  int prev = -1;
  for (Eigen::SparseVector<double>::InnerIterator it(s); it; ++it)
  {
    sym::check(static_cast<int>(it.index()) > prev, "sorted");
    prev = static_cast<int>(it.index());
  }
}

SYM_HARNESS(sparse_quadratic)
{
  sym::bound("quadratic expressions of 1 linear and up to 2 quadratic terms (3 thorough) over 2 variables; both conventions, forced diagonal, reused output");
  VarVector v = hs::vars(2);
  const int n = 3;
  Eigen::SparseMatrix<double> m;
  Eigen::VectorXd g;
  if (sym::flag("reused"))
    exprToEigen(exprSquare(3.0 * v[1] + 1.0), m, g, 4);
  QuadExpr e = hs::quad("e", v, 1, sym::thorough() ? 3 : 2);
  const bool halved = sym::flag("halved"), diag = sym::flag("diagonal");
  exprToEigen(e, m, g, n, halved, diag);
  sym::check(m.rows() == n && m.cols() == n && g.size() == n, "size");
  Eigen::MatrixXd d = m, r = Eigen::MatrixXd::Zero(n, n);
  Eigen::VectorXd q = Eigen::VectorXd::Zero(n);
  for (std::size_t i = 0; i < e.affexpr.size(); ++i)
    q(static_cast<Eigen::Index>(e.affexpr.vars[i].var_rep->index)) += e.affexpr.coeffs[i];
  for (std::size_t i = 0; i < e.size(); ++i)
  {
    auto a = static_cast<Eigen::Index>(e.vars1[i].var_rep->index), b = static_cast<Eigen::Index>(e.vars2[i].var_rep->index);
    r(a, b) += 0.5 * e.coeffs[i];
    r(b, a) += 0.5 * e.coeffs[i];
  }
  for (int i = 0; i < n; ++i)
  {
    sym::check_eq(g(i), q(i), "gradient");
    for (int j = 0; j < n; ++j)
      sym::check_eq(d(i, j), (halved ? 2.0 : 1.0) * r(i, j), "matrix");
  }
  if (diag)
    for (int i = 0; i < n; ++i)
    {
      bool found = false;
      for (Eigen::SparseMatrix<double>::InnerIterator it(m, i); it; ++it)
        found = found || it.row() == i;
      sym::check(found, "diagonal-entries");
    }
}

SYM_HARNESS(sparse_rows)
{
  sym::bound("0..2 affine rows of up to 2 terms over 2 variables, 2 or 3 columns; repeats and zeros; reused outputs");
  VarVector v = hs::vars(2);
  Eigen::SparseMatrix<double> m;
  Eigen::VectorXd b;
  if (sym::flag("reused"))
    exprToEigen(AffExprVector{ 3.0 * v[1] + 1.0, 2.0 * v[0] + 1.0, 2.0 * v[0] + 1.0 }, m, b, 2);
  const int rows = sym::choose("rows", 3), n = 2 + sym::choose("extra", 2);
  AffExprVector e;
  for (int i = 0; i < rows; ++i)
    e.push_back(hs::aff("e" + std::to_string(i), v, i == 0 ? 2 : 1));
  exprToEigen(e, m, b, n);
  sym::check(m.rows() == rows && m.cols() == n && b.size() == rows, "size");
  Eigen::MatrixXd d = m;
  DblVec x = hs::dbl("x", 3);
  for (int i = 0; i < rows; ++i)
  {
    double s = 0;
    for (int j = 0; j < n; ++j)
      s += d(i, j) * x[static_cast<std::size_t>(j)];
    sym::check_eq(s - b(i), hs::val(e[static_cast<std::size_t>(i)], x), "row");
  }
}

SYM_HARNESS(triplets)
{
  sym::bound("3 x 2 matrices of up to 3 triplets, repeats allowed; compressed-column form with 32 and 64 bit indices, full and upper triangle");
  IntVec r, c, r2, c2;
  DblVec x, x2;
  const int k = sym::choose("count", 4), rows = 3, cols = 3;
  Eigen::MatrixXd ref = Eigen::MatrixXd::Zero(rows, cols);
  for (int i = 0; i < k; ++i)
  {
    r.push_back(sym::choose("row" + std::to_string(i), rows));
    c.push_back(sym::choose("col" + std::to_string(i), cols));
    x.push_back(sym::real_in("val" + std::to_string(i), -100, 100));
    ref(r.back(), c.back()) += x.back();
  }
  Eigen::SparseMatrix<double> m(rows, cols);
  tripletsToEigen(r, c, x, m);
  Eigen::MatrixXd d = m;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      sym::check_eq(d(i, j), ref(i, j), "from-triplets");
  eigenToTriplets(m, r2, c2, x2);
  sym::check(r2.size() == c2.size() && r2.size() == x2.size(), "to-triplets");
  Eigen::MatrixXd back = Eigen::MatrixXd::Zero(rows, cols);
  for (std::size_t i = 0; i < r2.size(); ++i)
    back(r2[i], c2[i]) += x2[i];
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      sym::check_eq(back(i, j), ref(i, j), "to-triplets");
  auto csc = [&](const auto& ri, const auto& cp, const DblVec& val, bool upper) {
    bool ok = cp.size() == static_cast<std::size_t>(cols) + 1 && ri.size() == val.size() && cp.front() == 0 && static_cast<std::size_t>(cp.back()) == val.size();
    sym::check(ok, "csc-shape");
    if (!ok)
      return;
    Eigen::MatrixXd e = Eigen::MatrixXd::Zero(rows, cols);
    for (int j = 0; j < cols; ++j)
    {
      sym::check(cp[static_cast<std::size_t>(j)] <= cp[static_cast<std::size_t>(j) + 1], "csc-columns");
      for (auto p = static_cast<std::size_t>(cp[static_cast<std::size_t>(j)]); p < static_cast<std::size_t>(cp[static_cast<std::size_t>(j) + 1]); ++p)
      {
        const auto row = static_cast<Eigen::Index>(ri[p]);
        sym::check(row >= 0 && row < rows, "csc-rows");
        e(row, j) += val[p];
      }
    }
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j)
        sym::check_eq(e(i, j), upper && i > j ? 0.0 : ref(i, j), "csc");
  };
  DblVec val;
  IntVec ri{ 7 }, cp{ 7 };
  std::vector<long long> rl{ 7, 7 }, cl;
  Eigen::SparseMatrix<double> a = m, b = m;
  if (sym::flag("upper"))
  {
    eigenToCSC<Eigen::Upper>(a, ri, cp, val);
    csc(ri, cp, val, true);
    eigenToCSC<Eigen::Upper>(b, rl, cl, val);
    csc(rl, cl, val, true);
  }
  else
  {
    eigenToCSC(a, ri, cp, val);
    csc(ri, cp, val, false);
    eigenToCSC(b, rl, cl, val);
    csc(rl, cl, val, false);
  }
}

SYM_HARNESS(simplify)
{
  sym::bound("up to 3 index-value pairs (4 thorough), repeats and zeros allowed");
  IntVec idx;
  DblVec val;
  const int k = sym::choose("count", sym::thorough() ? 5 : 4);
  double ref[3] = { 0, 0, 0 };
  for (int i = 0; i < k; ++i)
  {
    idx.push_back(sym::choose("index" + std::to_string(i), 3));
    val.push_back(sym::real_in("val" + std::to_string(i), -100, 100));
    ref[idx.back()] += val.back();
  }
  simplify2(idx, val);
  sym::check(idx.size() == val.size(), "well-formed");
  double out[3] = { 0, 0, 0 };
  for (std::size_t i = 0; i < idx.size(); ++i)
  {
    sym::check(idx[i] >= 0 && idx[i] < 3 && (i == 0 || idx[i - 1] < idx[i]), "unique-sorted");
    out[idx[i]] += val[i];
  }
  for (int i = 0; i < 3; ++i)
    sym::check_eq(out[i], ref[i], "sum");
}
