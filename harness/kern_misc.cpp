#include "kern_mat.hpp"
template <class M>
static void put(const M& r, json& out)
{
  auto a = r.array();
  out["m"] = (int)a.extent(0);
  out["n"] = (int)a.extent(1);
  out["out"] = rows(a, a.extent(0), a.extent(1));
}
static void unary(const json& in, json& out)
{
  Mat A(in["A"], in["la"]);
  std::string op = in["op"];
  A.with([&](auto& a) {
    if (op == "diag") {
      auto d = diag(a);
      json r = json::array();
      for (size_t i = 0; i < d.size(); ++i) r.push_back({d(i).real(), d(i).imag()});
      out["vec"] = r;
    } else if (op == "copy") {
      auto c = copy(a);
      // a real copy: changing the source afterwards does not show
      json r = rows(c.array(), A.m, A.n);
      for (int i = 0; i < A.m; ++i)
        for (int k = 0; k < A.n; ++k) a.array()(i, k) += cplx(1, 0);
      put(c, out);
      out["deep"] = rows(c.array(), A.m, A.n) == r;
      for (int i = 0; i < A.m; ++i)
        for (int k = 0; k < A.n; ++k) a.array()(i, k) -= cplx(1, 0);
    } else if (op == "zeros") {
      put(zeros_like()(a), out);
    } else if (op == "empty") {
      auto c = empty_like()(a);
      out["m"] = (int)c.array().extent(0);
      out["n"] = (int)c.array().extent(1);
    } else if (op == "gram") {
      put(inner_()(a, a), out);
    }
  });
  A.report(out, "A", true);
}
static void deepcopy(const json& in, json& out)
{
  Mat A(in["A"], in["la"]), Cm(in["C"], in["lc"]);
  A.with([&](auto& a) { Cm.with([&](auto& c) { deep_copy(c, a); }); });
  A.report(out, "A", true);
  Cm.report(out, "C", false);
}
static void inner_alloc(const json& in, json& out)
{
  Mat A(in["A"], in["la"]), B(in["B"], in["lb"]);
  try {
    A.with([&](auto& a) {
      B.with([&](auto& b) {
        if (in["op"] == "inneralloc") put(inner_()(a, b, cx(in["alpha"])), out);
        else put(transform_alloc(a, b, cx(in["alpha"])), out);
      });
    });
  } catch (std::runtime_error& e) {
    out["exc"] = e.what();
  }
  A.report(out, "A", true);
  B.report(out, "B", true);
}
static void mkdiag(const json& in, json& out)
{
  rvec_t x("x", in["x"].size());
  for (size_t i = 0; i < x.size(); ++i) x(i) = in["x"][i].get<double>();
  Kokkos::View<cplx*, Kokkos::HostSpace> y("y", x.size());
  for (size_t i = 0; i < x.size(); ++i) y(i) = cplx(x(i), -x(i));
  auto r = make_diag()(y);
  put(r, out);
  auto q = make_diag()(x);
  bool same = q.array().extent(0) == r.array().extent(0) && q.array().extent(1) == r.array().extent(1);
  for (size_t i = 0; same && i < q.array().extent(0); ++i)
    for (size_t j = 0; j < q.array().extent(1); ++j) same = same && q.array()(i, j) == r.array()(i, j).real();
  out["realsame"] = same;
}
static void trace_(const json& in, json& out)
{
  Mat A(in["A"], in["la"]), B(in["B"], in["lb"]);
  A.with([&](auto& a) {
    B.with([&](auto& b) {
      cplx z = innerh_tr()(a, b);
      out["vec"] = {{z.real(), z.imag()}};
    });
  });
  A.report(out, "A", true);
  B.report(out, "B", true);
}
// sums over keys
static void reduce2(const json& in, json& out)
{
  Mat A(in["A"], "dense"), B(in["B"], "dense");
  mvector<dense_t> x, y;
  int nk = in["nk"];
  for (int k = 0; k < nk; ++k) {
    x[{k, k % 2}] = A.d;
    y[{k, k % 2}] = B.d;
  }
  out["tr"] = innerh_reduce(x, y).real();
  out["n2"] = l2norm(x) * l2norm(x);
}
static void lin(const json& in, json& out)
{
  int n = in["n"];
  double a = in["a"], b = in["b"];
  auto v = linspace(a, b, n);
  out["vec"] = v;
}
static Reg m1("diag", unary), m2("copy", unary), m3("zeros", unary), m4("empty", unary), m4b("gram", unary),
    m5("deepcopy", deepcopy), m6("inneralloc", inner_alloc), m7("transformalloc", inner_alloc), m8("makediag", mkdiag),
    m9("trace", trace_), m10("reduce2", reduce2), m11("linspace", lin);
