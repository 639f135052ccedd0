// smearing functions, search for the chemical potential, occupations and entropy of keyed spectra
#include "kern.hpp"
#include <smearing.hpp>
#include <cstdio>
using namespace kern;
using namespace nlcglib;
typedef std::pair<int, int> key_t2;
typedef Kokkos::View<double*, Kokkos::HostSpace> vec_t;

static std::string D(double x)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
static double num(const json& j) { return j.is_string() ? std::stod(j.get<std::string>()) : j.get<double>(); }
static smearing_type kind(int i)
{
  return std::vector<smearing_type>{smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS,
                                    smearing_type::METHFESSEL_PAXTON, smearing_type::COLD}.at(i);
}
template <enum smearing_type S>
static void table(const json& in, json& out)
{
  double mo = num(in["occ"]);
  json f = json::array(), d = json::array(), dd = json::array(), s = json::array();
  for (auto& jx : in["x"]) {
    double x = num(jx);
    f.push_back(D(smearing<S>::fn(x, mo)));
    d.push_back(D(smearing<S>::delta(x, mo)));
    dd.push_back(D(smearing<S>::dxdelta(x, mo)));
    s.push_back(D(smearing<S>::entropy(x, mo)));
  }
  out["fn"] = f;
  out["delta"] = d;
  out["dxdelta"] = dd;
  out["entropy"] = s;
}
static void smearfn(const json& in, json& out)
{
  switch (kind(in["smear"])) {
    case smearing_type::FERMI_DIRAC: return table<smearing_type::FERMI_DIRAC>(in, out);
    case smearing_type::GAUSSIAN_SPLINE: return table<smearing_type::GAUSSIAN_SPLINE>(in, out);
    case smearing_type::GAUSS: return table<smearing_type::GAUSS>(in, out);
    case smearing_type::METHFESSEL_PAXTON: return table<smearing_type::METHFESSEL_PAXTON>(in, out);
    case smearing_type::COLD: return table<smearing_type::COLD>(in, out);
  }
}
static void occ(const json& in, json& out)
{
  Communicator c(comm_of(in.value("own", "world")));
  mvector<double> wk(c);
  mvector<vec_t> ek(c);
  for (auto& e : in["data"][rank()]) {
    key_t2 k(e[0], e[1]);
    wk[k] = num(e[2]);
    vec_t v("ek", e[3].size());
    for (size_t i = 0; i < e[3].size(); ++i) v(i) = num(e[3][i]);
    ek[k] = v;
  }
  Smearing sm(num(in["T"]), in["ne"].get<int>(), num(in["occ"]), wk, kind(in["smear"]));
  out["f"] = json::array();
  auto r = sm.fn(ek);
  double mu = std::get<0>(r);
  auto fn = std::get<1>(r);
  out["mu"] = D(mu);
  for (auto& e : fn) {
    json a = json::array();
    for (size_t i = 0; i < e.second.size(); ++i) a.push_back(D(e.second(i)));
    out["f"].push_back({e.first.first, e.first.second, a});
  }
  out["S"] = D(sm.entropy(fn, ek, mu));
  bool kept = true;
  for (auto& e : in["data"][rank()])
    for (size_t i = 0; i < e[3].size(); ++i) kept = kept && ek[key_t2(e[0], e[1])](i) == num(e[3][i]);
  out["kept"] = kept;
}
static Reg a1("smearfn", smearfn), a2("occ", occ);
