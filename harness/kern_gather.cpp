// keyed collections and communicator: gathers and reductions
#include "kern.hpp"
#include <la/mvector.hpp>
using namespace kern;
using namespace nlcglib;
typedef std::pair<int, int> key_t2;

template <class T>
static T mk(long v) { return T(v); }
template <>
Kokkos::complex<double> mk(long v) { return Kokkos::complex<double>(v, -v); }
static json un(double v) { return v; }
static json un(int v) { return v; }
static json un(Kokkos::complex<double> v) { return v.imag() == -v.real() ? json(v.real()) : json("broken"); }
static Communicator C(const json& in, const char* k, const char* d)
{
  return Communicator(comm_of(in.value(k, d)));
}

template <class T>
static void scalar(const json& in, json& out)
{
  mvector<T> v(C(in, "own", "world"));
  for (auto& e : in["data"][rank()]) v[key_t2(e[0], e[1])] = mk<T>(e[2][0].get<long>());
  auto w = v.allgather(C(in, "over", "null"));
  out["size"] = w.commk().size();
  out["got"] = json::array();
  for (auto& e : w) out["got"].push_back({e.first.first, e.first.second, json::array({un(e.second)})});
}
template <class T>
static void view(const json& in, json& out)
{
  typedef Kokkos::View<T*, Kokkos::HostSpace> view_t;
  mvector<view_t> v(C(in, "own", "world"));
  for (auto& e : in["data"][rank()]) {
    view_t x("x", e[2].size());
    for (size_t i = 0; i < e[2].size(); ++i) x(i) = mk<T>(e[2][i].get<long>());
    v[key_t2(e[0], e[1])] = x;
  }
  auto w = v.allgather(C(in, "over", "null"));
  out["size"] = w.commk().size();
  out["got"] = json::array();
  for (auto& e : w) {
    json a = json::array();
    for (size_t i = 0; i < e.second.size(); ++i) a.push_back(un(e.second(i)));
    out["got"].push_back({e.first.first, e.first.second, a});
  }
  // the original collection is unchanged
  json s = json::array();
  for (auto& e : v) {
    json a = json::array();
    for (size_t i = 0; i < e.second.size(); ++i) a.push_back(un(e.second(i)));
    s.push_back({e.first.first, e.first.second, a});
  }
  out["src"] = s;
}
template <class T>
static void total(const json& in, json& out)
{
  mvector<T> v(C(in, "own", "world"));
  for (auto& e : in["data"][rank()]) v[key_t2(e[0], e[1])] = mk<T>(e[2][0].get<long>());
  out["got"] = un(sum(v, C(in, "over", "null")));
}
static void total_lazy(const json& in, json& out)
{
  mvector<std::function<double()>> v(C(in, "own", "world"));
  for (auto& e : in["data"][rank()]) {
    double x = e[2][0].get<double>();
    v[key_t2(e[0], e[1])] = [x] { return x; };
  }
  out["got"] = sum(v, C(in, "over", "null"));
}
template <class T>
static void reduce(const json& in, json& out)
{
  Communicator c = C(in, "own", "world");
  T v = mk<T>(in["vals"][rank()].get<long>());
  std::string o = in["red"];
  out["got"] = un(c.allreduce(v, o == "sum" ? mpi_op::sum : o == "min" ? mpi_op::min : mpi_op::max));
}
static Reg r1("gather-int", scalar<int>), r2("gather-double", scalar<double>), r3("gather-vec", view<double>),
    r3c("gather-veccomplex", view<Kokkos::complex<double>>), r3i("gather-vecint", view<int>),
    r4("sum-double", total<double>), r5("sum-int", total<int>), r5c("sum-complex", total<Kokkos::complex<double>>),
    r5l("sum-lazy", total_lazy), r6("reduce-double", reduce<double>), r7("reduce-int", reduce<int>),
    r8("reduce-complex", reduce<Kokkos::complex<double>>);

// gather of lists
template <class T>
struct conv
{
  static T mk(long v) { return T(v); }
  static json un(T v) { return v; }
};
template <class A, class B>
struct conv<std::pair<A, B>>
{
  static std::pair<A, B> mk(long v) { return {A(v), B(-v)}; }
  static json un(std::pair<A, B> p) { return double(p.first) == -double(p.second) ? json(p.first) : json("broken"); }
};
template <class T>
static void lists(const json& in, json& out)
{
  Communicator c = C(in, "own", "world");
  std::vector<T> v;
  for (auto& e : in["data"][rank()])
    for (auto& x : e[2]) v.push_back(conv<T>::mk(x.get<long>()));
  auto w = c.allgather(v);
  out["lists"] = json::array();
  for (auto& l : w) {
    json a = json::array();
    for (auto& x : l) a.push_back(conv<T>::un(x));
    out["lists"].push_back(a);
  }
}
static Reg q1("list-int", lists<int>), q2("list-double", lists<double>), q3("list-char", lists<char>),
    q4("list-pairii", lists<std::pair<int, int>>), q5("list-pairdd", lists<std::pair<double, double>>),
    q6("list-pairid", lists<std::pair<int, double>>), q7("list-pairdi", lists<std::pair<double, int>>);
