#include "kern.hpp"
#include <functional>
#include <array>
#include <future>
#include <mutex>
#include <variant>
#include <la/mvector.hpp>
using namespace kern;
using namespace nlcglib;
typedef std::pair<int, int> K;
typedef mvector<int> V;
typedef mvector<std::function<int()>> L;
typedef mvector<std::shared_future<int>> F;
static std::mutex g_mu;
static std::vector<std::array<int, 3>> g_log;  // functions may run on other threads
struct One
{
  int node;
  int operator()(int x) const
  {
    std::lock_guard<std::mutex> l(g_mu);
    g_log.push_back({node, x, 0});
    return 3 * x + node;
  }
};
struct Two
{
  int node;
  int operator()(int x, int y) const
  {
    std::lock_guard<std::mutex> l(g_mu);
    g_log.push_back({node, x, y});
    return 7 * x + 2 * y + node;
  }
};
template <class M>
static json keys(const M& m)
{
  json r = json::array();
  for (auto& e : m) r.push_back({e.first.first, e.first.second});
  return r;
}
static json vals(const V& v)
{
  json r = json::array();
  for (auto& e : v) r.push_back({e.first.first, e.first.second, e.second});
  return r;
}
static void lazy(const json& in, json& out)
{
  std::vector<std::variant<V, L, F>> R;
  out["steps"] = json::array();
  for (auto& c : in["prog"]) {
    std::string k = c["c"];
    json o = {{"calls", json::array()}};
    int node = R.size() + 1;
    int a = c.value("a", 1) - 1, b = c.value("b", 1) - 1;
    std::variant<V, L, F> ra, rb;
    if (!R.empty()) ra = R[a], rb = R[b];
    if (k == "src") {
      V v(Communicator(comm_of(c.value("own", "world"))));
      for (auto& e : c["v"]) v[K(e[0], e[1])] = e[2].get<int>();
      R.emplace_back(v);
    } else if (k == "map") {
      std::visit([&](auto& x) { L r(tapply(One{node}, x)); o["size"] = r.commk().size(); R.emplace_back(r); },
                 ra);
    } else if (k == "map2") {
      std::visit([&](auto& x, auto& y) { L r(tapply(Two{node}, x, y)); o["size"] = r.commk().size(); R.emplace_back(r); },
                 ra, rb);
    } else if (k == "async") {
      std::visit([&](auto& x) { F r(tapply_async(One{node}, x)); o["size"] = r.commk().size(); R.emplace_back(r); },
                 ra);
    } else if (k == "async2") {
      std::visit([&](auto& x, auto& y) { F r(tapply_async(Two{node}, x, y)); o["size"] = r.commk().size(); R.emplace_back(r); },
                 ra, rb);
    } else if (k == "mul") {
      std::visit([&](auto& x, auto& y) { auto r = x * y; o["size"] = r.commk().size(); R.emplace_back(L(r)); },
                 ra, rb);
    } else if (k == "force") {
      std::visit([&](auto& x) { V r; for (auto& e : eval_threaded(x)) r[e.first] = e.second; R.emplace_back(r); },
                 ra);
    } else if (k == "exec") {
      std::visit([&](auto& x) { execute(x); }, R[a]);
    } else if (k == "dup") {
      R.push_back(ra);
    } else if (k == "set") {
      std::get<V>(R[a])[K(c["k"][0], c["k"][1])] = c["v"].get<int>();
    } else if (k == "sum") {
      std::visit([&](auto& x) { o["sum"] = sum(x); }, R[a]);
    }
    if (k == "force" || k == "src" || k == "dup") {
      if (auto* v = std::get_if<V>(&R.back())) o["vals"] = vals(*v);
    }
    if (k != "exec" && k != "set" && k != "sum")
      o["keys"] = std::visit([](auto& x) { return keys(x); }, R.back());
    {
      std::lock_guard<std::mutex> l(g_mu);
      for (auto& e : g_log) o["calls"].push_back({e[0], e[1], e[2]});
      g_log.clear();
    }
    out["steps"].push_back(o);
  }
  R.clear();
  std::lock_guard<std::mutex> l(g_mu);
  g_log.clear();
}
static void evalcomm(const json& in, json& out)
{
  V v(Communicator(MPI_COMM_WORLD));
  v[K(rank(), 0)] = 1;
  auto l = tapply(One{0}, v);
  out["own"] = v.commk().size();
  out["lazy"] = l.commk().size();
  out["total"] = sum(l);
  out["local"] = sum(eval_threaded(l));
}
static void unzip_(const json& in, json& out)
{
  typedef std::tuple<int, double, std::string> T;
  mvector<T> z(Communicator(comm_of(in.value("own", "world"))));
  for (auto& e : in["v"]) z[K(e[0], e[1])] = T(e[2].get<int>(), e[2].get<double>() + 1000, "s" + std::to_string(e[2].get<int>()));
  auto put = [&](auto& u, const char* nm) {
    auto& a = std::get<0>(u);
    auto& b = std::get<1>(u);
    auto& c = std::get<2>(u);
    json r = json::array();
    for (auto& e : a) r.push_back({e.first.first, e.first.second, e.second, b.at(e.first) - 1000, c.at(e.first) == "s" + std::to_string(e.second)});
    out[nm] = r;
    out[std::string(nm) + "n"] = {a.size(), b.size(), c.size()};
    out[std::string(nm) + "c"] = {a.commk().size(), b.commk().size(), c.commk().size()};
  };
  auto u = unzip(z);
  put(u, "plain");
  auto w = unzip(z, Communicator(comm_of("world")));
  put(w, "comm");
}
static Reg z1("lazy", lazy), z2("evalcomm", evalcomm), z3("unzip", unzip_);
