#include "kern_mat.hpp"
static rvec_t rv(const json& j)
{
  rvec_t v("v", j.size());
  for (size_t i = 0; i < j.size(); ++i) v(i) = j[i].get<double>();
  return v;
}
static void scale_(const json& in, json& out)
{
  Mat A(in["A"], in["la"]), Cm(in["C"], in["lc"]);
  rvec_t x = rv(in["x"]);
  double al = in["alpha"][0], be = in["beta"][0];
  std::string op = in["op"];
  try {
    A.with([&](auto& a) {
      Cm.with([&](auto& c) {
        if (op == "scalecol") {
          if (in.value("dflt", false)) scale(c, a, x, al);
          else scale(c, a, x, al, be);
        } else {
          if (in.value("dflt", false)) scale(c, a, al);
          else scale(c, a, al, be);
        }
      });
    });
  } catch (std::runtime_error& e) {
    out["exc"] = e.what();
  }
  A.report(out, "A", true);
  out["keptX"] = vec(x) == in["x"];
  Cm.report(out, "C", false);
}
static Reg s1("scalecol", scale_), s2("scalemat", scale_);
