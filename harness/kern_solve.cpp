#include "kern_mat.hpp"
#include <cmath>
typedef std::vector<std::vector<cplx>> M;
static M get(const dense_t& d)
{
  int m = d.array().extent(0), n = d.array().extent(1);
  M r(m, std::vector<cplx>(n));
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) r[i][j] = d.array()(i, j);
  return r;
}
static M mul(const M& a, const M& b, bool ah = false)
{
  int m = ah ? (a.empty() ? 0 : a[0].size()) : a.size(), k = ah ? a.size() : (a.empty() ? 0 : a[0].size()), n = b.empty() ? 0 : b[0].size();
  M r(m, std::vector<cplx>(n, cplx(0)));
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      for (int l = 0; l < k; ++l) r[i][j] += (ah ? Kokkos::conj(a[l][i]) : a[i][l]) * b[l][j];
  return r;
}
static double dist(const M& a, const M& b, double scale = 1)
{
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < a[i].size(); ++j) {
      double x = Kokkos::abs(a[i][j] - b[i][j]);
      if (!(x == x)) return NAN;
      d = std::max(d, x);
    }
  return d / scale;
}
static double mx(const M& a)
{
  double d = 0;
  for (auto& r : a)
    for (auto& x : r) d = std::max(d, (double)Kokkos::abs(x));
  return d;
}
static M eye(int n)
{
  M r(n, std::vector<cplx>(n, cplx(0)));
  for (int i = 0; i < n; ++i) r[i][i] = 1;
  return r;
}
static M herm(const M& a)
{
  M r(a.empty() ? 0 : a[0].size(), std::vector<cplx>(a.size()));
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < a[i].size(); ++j) r[j][i] = Kokkos::conj(a[i][j]);
  return r;
}
// hermitian eigenproblem
static void eigh_(const json& in, json& out)
{
  Mat A(in["A"], "dense");
  int n = A.n;
  dense_t U(map_of(n, n));
  rvec_t w("w", n);
  try {
    eigh(U, w, A.d);
  } catch (std::runtime_error& e) {
    out["exc"] = e.what();
  }
  M a = get(A.d), u = get(U), uw = u;
  double sc = std::max(1.0, mx(a));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) uw[i][j] *= w(j);
  bool asc = true;
  for (int i = 1; i < n; ++i) asc = asc && w(i - 1) <= w(i);
  out["dg"] = {digits(dist(mul(a, u), uw, sc * std::max(1, n))), digits(dist(mul(u, u, true), eye(n), std::max(1, n)))};
  out["asc"] = asc;
  A.report(out, "A", true);
}
// positive definite system: A = G^H G + 1
static void solve_(const json& in, json& out)
{
  std::string lay = in.value("la", "dense");
  Mat A(in["A"], lay), B(in["B"], lay);
  auto rd = [](const Mat& q) {
    M r(q.m, std::vector<cplx>(q.n));
    for (int i = 0; i < q.m; ++i)
      for (int j = 0; j < q.n; ++j) r[i][j] = q.at(i, j);
    return r;
  };
  M a = rd(A), b = rd(B);
  try {
    if (lay == "dense") solve_sym(A.d, B.d);
    else solve_sym(A.s, B.s);
  } catch (std::runtime_error& e) {
    out["exc"] = e.what();
  }
  M x = rd(B);
  out["stray"] = A.stray() + B.stray();
  out["dg"] = {digits(dist(mul(a, x), b, std::max(1.0, mx(a)) * std::max(1.0, mx(x)) * std::max(1, A.n)))};
}
static bool posdef(const M& a)
{
  // Cholesky of the hermitian part
  int n = a.size();
  M l(n, std::vector<cplx>(n, cplx(0)));
  for (int j = 0; j < n; ++j) {
    double d = a[j][j].real();
    for (int k = 0; k < j; ++k) d -= std::pow(Kokkos::abs(l[j][k]), 2);
    if (!(d > 0)) return false;
    l[j][j] = std::sqrt(d);
    for (int i = j + 1; i < n; ++i) {
      cplx s = a[i][j];
      for (int k = 0; k < j; ++k) s -= l[i][k] * Kokkos::conj(l[j][k]);
      l[i][j] = s / l[j][j].real();
    }
  }
  return true;
}
// symmetric orthonormalisation, optionally with an overlap operator S (given as SX)
static void loewdin_(const json& in, json& out)
{
  Mat X(in["X"], "dense"), SX(in["SX"], "dense"), S(in["S"], "dense");
  bool us = in["us"];
  int n = X.n;
  M x = get(X.d), sx = get(SX.d), s = get(S.d);
  dense_t Y = us ? loewdin(X.d, SX.d) : loewdin(X.d);
  M y = get(Y);
  M sy = us ? mul(s, y) : y;
  // Y^H S Y = 1 ; X^H S Y hermitian and positive (the closest orthonormal set), same span
  M o = mul(y, sy, true), p = mul(x, sy, true);
  double sc = std::max(1.0, mx(p));
  out["dg"] = {digits(dist(o, eye(n))), digits(dist(p, herm(p), sc)), digits(dist(mul(y, herm(p)), x, std::max(1.0, mx(x))))};
  out["asc"] = posdef(p);
  X.report(out, "A", true);
  SX.report(out, "B", true);
}
static Reg e1("eigh", eigh_), e2("solve", solve_), e3("loewdin", loewdin_);
