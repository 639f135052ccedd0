#include "kern_mat.hpp"
typedef std::pair<int, int> K;
static json* g_calls;
struct OpAt
{
  K key;
  dense_t operator()(const dense_t& x) const
  {
    g_calls->push_back({key.first, key.second, x.array()(0, 0).real()});
    dense_t y(map_of(1, 1));
    y.array()(0, 0) = x.array()(0, 0) * 2.0 + cplx(key.first, key.second);
    return y;
  }
};
struct Op
{
  OpAt at(const K& k) const { return OpAt{k}; }
};
static void opmap(const json& in, json& out)
{
  mvector<dense_t> x(Communicator(MPI_COMM_WORLD));
  for (auto& e : in["v"]) {
    dense_t m(map_of(1, 1));
    m.array()(0, 0) = e[2].get<double>();
    x[K(e[0], e[1])] = m;
  }
  out["calls"] = json::array();
  g_calls = &out["calls"];
  auto l = tapply_op(Op(), x);
  out["size"] = l.commk().size();
  out["ncreate"] = out["calls"].size();
  out["vals"] = json::array();
  for (int t = 0; t < in["times"].get<int>(); ++t) {
    auto y = eval_threaded(l);
    json r = json::array();
    for (auto& e : y) r.push_back({e.first.first, e.first.second, e.second.array()(0, 0).real(), e.second.array()(0, 0).imag()});
    out["vals"].push_back(r);
  }
  // deep copy of a keyed collection
  auto c = copy(x);
  for (auto& e : x) e.second.array()(0, 0) += 500.0;
  out["copy"] = json::array();
  for (auto& e : c) out["copy"].push_back({e.first.first, e.first.second, e.second.array()(0, 0).real()});
}
static Reg o1("opmap", opmap);
