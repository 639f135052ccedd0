// Instrumented host (the role SIRIUS plays) for nlcglib's public API.
//
// Implements EnergyBase / OverlapBase / UltrasoftPrecondBase for a small mean-field model
//    E[X,f] = sum_k w_k sum_n f_kn <x_kn|H0_k|x_kn> + 1/2 sum_g u_g rho_g^2 ,
//    rho_g  = sum_k w_k sum_n f_kn |x_kn(g)|^2 ,   H_k = H0_k + diag(u rho)
// with an SPD overlap S_k and an SPD preconditioner P_k per (k, spin) key.
// Every callback is a linearization point of the abstract machine in spec/; the host emits one
// event per callback that matters (see Trace below).  Nothing in here uses nlcglib internals.
#pragma once
#include <mpi.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <nlohmann/json.hpp>
#include "nlcglib.hpp"

namespace vh {
using json = nlohmann::json;
using cplx = std::complex<double>;
using key_t_ = std::pair<int, int>;
using nlcglib::memory_type;

// ---------------------------------------------------------------- trace ----
struct Trace
{
  FILE* f{nullptr};
  void open(const std::string& fn) { f = std::fopen(fn.c_str(), "a"); }
  void emit(const json& j)
  {
    if (!f) return;
    std::string s = j.dump();
    std::fwrite(s.data(), 1, s.size(), f);
    std::fputc('\n', f);
    std::fflush(f);
  }
};
inline Trace& trace()
{
  static Trace t;
  return t;
}
// doubles are written as strings so that NaN / inf survive
inline std::string D(double x)
{
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}

// ---------------------------------------------------------------- dense ----
struct Mat
{
  int m{0}, n{0};
  std::vector<cplx> a;
  Mat() = default;
  Mat(int m, int n) : m(m), n(n), a(size_t(m) * n) {}
  cplx& operator()(int i, int j) { return a[i + size_t(m) * j]; }
  const cplx& operator()(int i, int j) const { return a[i + size_t(m) * j]; }
};
inline Mat mul(const Mat& A, const Mat& B)
{
  Mat C(A.m, B.n);
  for (int j = 0; j < B.n; ++j)
    for (int k = 0; k < A.n; ++k) {
      cplx b = B(k, j);
      for (int i = 0; i < A.m; ++i) C(i, j) += A(i, k) * b;
    }
  return C;
}
inline Mat herm(const Mat& A)
{
  Mat B(A.n, A.m);
  for (int i = 0; i < A.m; ++i)
    for (int j = 0; j < A.n; ++j) B(j, i) = std::conj(A(i, j));
  return B;
}
// Gauss-Jordan inverse with partial pivoting
inline bool inv(Mat A, Mat& R)
{
  int n = A.n;
  R = Mat(n, n);
  for (int i = 0; i < n; ++i) R(i, i) = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c + 1; i < n; ++i)
      if (std::abs(A(i, c)) > std::abs(A(p, c))) p = i;
    if (!(std::abs(A(p, c)) > 1e-290)) return false;
    for (int j = 0; j < n; ++j) {
      std::swap(A(c, j), A(p, j));
      std::swap(R(c, j), R(p, j));
    }
    cplx d = 1.0 / A(c, c);
    for (int j = 0; j < n; ++j) A(c, j) *= d, R(c, j) *= d;
    for (int i = 0; i < n; ++i)
      if (i != c) {
        cplx f = A(i, c);
        for (int j = 0; j < n; ++j) A(i, j) -= f * A(c, j), R(i, j) -= f * R(c, j);
      }
  }
  return true;
}

// -------------------------------------------------------------- layouts ----
// a strided 2-d host buffer surrounded by and interleaved with sentinel padding
struct Buf2
{
  int m{0}, n{0}, s0{1}, s1{0}, off{0};
  std::vector<cplx> st, ref;  // storage; reference copy used to detect stray writes
  static cplx sentinel(size_t i)
  {
    uint64_t p = 0x7ff8dead00000000ull + i;  // quiet NaN with payload
    double d;
    std::memcpy(&d, &p, 8);
    return {d, d};
  }
  void init(int m_, int n_, const std::string& mode)
  {
    m = m_, n = n_;
    off = 3;
    if (mode == "dense") {
      s0 = 1, s1 = m;
    } else if (mode == "padcol") {
      s0 = 1, s1 = m + 3;
    } else if (mode == "padcol1") {
      s0 = 1, s1 = m + 1;
    } else if (mode == "row") {
      s0 = n, s1 = 1;
    } else if (mode == "rowpad") {
      s0 = n + 2, s1 = 1;
    } else if (mode == "every2") {
      s0 = 2, s1 = 2 * m + 5;
    } else if (sscanf(mode.c_str(), "s:%d:%d", &s0, &s1) == 2) {
    } else
      throw std::runtime_error("harness: unknown layout " + mode);
    size_t need = off + size_t(m - 1) * s0 + size_t(n - 1) * s1 + 1 + 7;
    st.resize(need);
    for (size_t i = 0; i < need; ++i) st[i] = sentinel(i);
    ref = st;
  }
  cplx& at(int i, int j) { return st[off + size_t(i) * s0 + size_t(j) * s1]; }
  void put(const Mat& A)
  {
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) at(i, j) = A(i, j);
  }
  Mat get()
  {
    Mat A(m, n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) A(i, j) = at(i, j);
    return A;
  }
  void snap() { ref = st; }
  // number of padding words changed since init/snap
  int stray()
  {
    std::vector<char> is(st.size(), 0);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) is[off + size_t(i) * s0 + size_t(j) * s1] = 1;
    int c = 0;
    for (size_t i = 0; i < st.size(); ++i)
      if (!is[i] && std::memcmp(&st[i], &ref[i], sizeof(cplx)) != 0) ++c;
    return c;
  }
  bool same() { return std::memcmp(st.data(), ref.data(), st.size() * sizeof(cplx)) == 0; }
  // the data continue in other memory; the old memory is poisoned and watched
  std::list<std::vector<cplx>> left;
  void move()
  {
    auto now = st;
    left.push_back(std::move(st));
    st = std::move(now);
    for (size_t i = 0; i < left.back().size(); ++i) left.back()[i] = sentinel(i + 7);
  }
  bool rest()
  {
    for (auto& l : left)
      for (size_t i = 0; i < l.size(); ++i) {
        auto s = sentinel(i + 7);
        if (std::memcmp(&l[i], &s, sizeof(s)) != 0) return false;
      }
    return true;
  }
  nlcglib::buffer_protocol<cplx, 2> desc(memory_type mt, MPI_Comm c)
  {
    return nlcglib::buffer_protocol<cplx, 2>({s0, s1}, {m, n}, st.data() + off, mt, c);
  }
};
struct Buf1
{
  int n{0}, stride{1};
  std::vector<double> st, ref;
  std::list<std::vector<double>> left;
  void init(int n_, int stride_ = 1)
  {
    n = n_;
    stride = stride_;
    st.assign(n * stride + 6, 0);
    for (size_t i = 0; i < st.size(); ++i) st[i] = Buf2::sentinel(i).real();
    ref = st;
  }
  double& at(int i) { return st[3 + i * stride]; }
  void snap() { ref = st; }
  bool same() { return std::memcmp(st.data(), ref.data(), st.size() * sizeof(double)) == 0; }
  void move()
  {
    auto now = st;
    left.push_back(std::move(st));
    st = std::move(now);
    for (size_t i = 0; i < left.back().size(); ++i) left.back()[i] = Buf2::sentinel(i + 7).real();
  }
  bool rest()
  {
    for (auto& l : left)
      for (size_t i = 0; i < l.size(); ++i) {
        double s = Buf2::sentinel(i + 7).real();
        if (std::memcmp(&l[i], &s, sizeof(s)) != 0) return false;
      }
    return true;
  }
};

// ------------------------------------------------------- smearing oracle ----
// written from the definitions (Marzari-Vanderbilt, Methfessel-Paxton N=1, ...), in long double;
// x = (mu-e)/kT ; occupation f(x), its derivative d(x), entropy s(x) with s' = -x d
struct Smear
{
  typedef long double L;
  static L pi() { return 3.14159265358979323846264338327950288L; }
  static L f(int t, L x)
  {
    switch (t) {
      case 0: return x > 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x));
      case 1: return x <= 0 ? 0.5L * expl(x * (sqrtl(2) - x)) : 1 - 0.5L * expl(-x * (sqrtl(2) + x));
      case 2: return 0.5L * erfcl(-x);
      case 3: return 0.5L * erfcl(-x) + x * expl(-x * x) / (2 * sqrtl(pi()));
      case 4: {
        L z = x - 1 / sqrtl(2);
        return 0.5L * erfcl(-z) + expl(-z * z) / sqrtl(2 * pi());
      }
    }
    return NAN;
  }
  static L s(int t, L x)
  {
    switch (t) {
      case 0: {
        L p = f(0, x), q = f(0, -x);
        L r = 0;
        if (p > 0) r -= p * logl(p);
        if (q > 0) r -= q * logl(q);
        return r;
      }
      case 1: {
        L y = fabsl(x);
        return 0.25L * (2 * y * expl(-y * (sqrtl(2) + y)) +
                        sqrtl(pi()) * expl(0.5L) * erfcl(1 / sqrtl(2) + y));
      }
      case 2: return expl(-x * x) / (2 * sqrtl(pi()));
      case 3: return expl(-x * x) * (1 - 2 * x * x) / (4 * sqrtl(pi()));
      case 4: {
        L z = x - 1 / sqrtl(2);
        return expl(-z * z) * (1 - sqrtl(2) * x) / (2 * sqrtl(pi()));
      }
    }
    return NAN;
  }
  static L d(int t, L x)
  {
    switch (t) {
      case 0: return f(0, x) * f(0, -x);
      case 1: {
        L y = fabsl(x);
        return 0.5L * expl(-y * (sqrtl(2) + y)) * (sqrtl(2) + 2 * y);
      }
      case 2: return expl(-x * x) / sqrtl(pi());
      case 3: return expl(-x * x) * (1.5L - x * x) / sqrtl(pi());
      case 4: {
        L z = x - 1 / sqrtl(2);
        return expl(-z * z) * (2 - sqrtl(2) * x) / sqrtl(pi());
      }
    }
    return NAN;
  }
};
const double KB = 0.00000316681156340226;

}  // namespace vh
