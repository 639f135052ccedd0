#pragma once
#include "kern.hpp"
#include <la/lapack.hpp>
#include <iostream>
using namespace kern;
using namespace nlcglib;
typedef Kokkos::complex<double> cplx;
typedef KokkosDVector<cplx**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> dense_t;
typedef KokkosDVector<cplx**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> strided_t;
typedef Kokkos::View<double*, Kokkos::HostSpace> rvec_t;
inline cplx cx(const json& j) { return cplx(j[0].get<double>(), j[1].get<double>()); }
inline Map<> map_of(int m, int n) { return Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, m, n}})); }
template <class V>
json rows(const V& v, int m, int n)
{
  json r = json::array();
  for (int i = 0; i < m; ++i) {
    json q = json::array();
    for (int j = 0; j < n; ++j) q.push_back({v(i, j).real(), v(i, j).imag()});
    r.push_back(q);
  }
  return r;
}
inline json vec(const rvec_t& v)
{
  json r = json::array();
  for (size_t i = 0; i < v.size(); ++i) r.push_back(v(i));
  return r;
}
// matrix given as {m, n, v: rows of [re, im]}; layouts: "dense" (library-allocated), "pad" (columns with a gap), "row" (row-major)
struct Mat
{
  int m, n;
  std::string lay;
  std::vector<cplx> buf;
  dense_t d;
  strided_t s;
  cplx fill{-7777, 5555};
  json orig;
  Mat(const json& j, const std::string& l) : m(j["m"]), n(j["n"]), lay(l), orig(j["v"])
  {
    auto val = [&](int i, int k) { return cx(j["v"][i][k]); };
    if (lay == "dense") {
      d = dense_t(map_of(m, n));
      for (int i = 0; i < m; ++i)
        for (int k = 0; k < n; ++k) d.array()(i, k) = val(i, k);
    } else {
      int s0 = lay == "row" ? n + 2 : 1, s1 = lay == "row" ? 1 : m + 2;
      buf.assign((m + 3) * (n + 3) + 8, fill);
      buffer_protocol<std::complex<double>, 2> b({s0, s1}, {m, n}, (std::complex<double>*)(buf.data() + 4), memory_type::host, MPI_COMM_SELF);
      s = strided_t(map_of(m, n), b);
      for (int i = 0; i < m; ++i)
        for (int k = 0; k < n; ++k) buf[4 + i * s0 + k * s1] = val(i, k);
    }
  }
  template <class F>
  void with(F&& f)
  {
    if (lay == "dense") f(d);
    else f(s);
  }
  cplx at(int i, int k) const
  {
    int s0 = lay == "row" ? n + 2 : 1, s1 = lay == "row" ? 1 : m + 2;
    return lay == "dense" ? d.array()(i, k) : buf[4 + i * s0 + k * s1];
  }
  int stray() const
  {
    if (lay == "dense") return 0;
    int s0 = lay == "row" ? n + 2 : 1, s1 = lay == "row" ? 1 : m + 2, bad = 0;
    std::vector<char> in(buf.size(), 0);
    for (int i = 0; i < m; ++i)
      for (int k = 0; k < n; ++k) in[4 + i * s0 + k * s1] = 1;
    for (size_t i = 0; i < buf.size(); ++i)
      if (!in[i] && !(buf[i] == fill)) ++bad;
    return bad;
  }
  // inputs: only whether anything changed; outputs: contents
  void report(json& out, const char* nm, bool input)
  {
    auto f = [this](int i, int k) { return at(i, k); };
    json r = rows(f, m, n);
    if (input) out[std::string("kept") + nm] = (r == orig) && stray() == 0;
    else {
      out["out"] = r;
      out["stray"] = stray();
    }
  }
};
