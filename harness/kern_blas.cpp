#include "kern_mat.hpp"
// products, scaled sums
template <class TC, class TA, class TB>
static void prod(const std::string& op, TC& c, const TA& a, const TB& b, const json& in)
{
  if (op == "inner") inner(c, a, b, cx(in["alpha"]), cx(in["beta"]));
  else if (op == "outer") outer(c, a, b, cx(in["alpha"]), cx(in["beta"]));
  else transform(c, cx(in["beta"]), cx(in["alpha"]), a, b);
}
static void prods(const json& in, json& out)
{
  Mat A(in["A"], in["la"]), B(in["B"], in["lb"]), Cm(in["C"], in["lc"]);
  std::string op = in["op"];
  try {
    A.with([&](auto& a) {
      B.with([&](auto& b) { Cm.with([&](auto& c) { prod(op, c, a, b, in); }); });
    });
  } catch (std::runtime_error& e) {
    out["exc"] = e.what();
  }
  A.report(out, "A", true);
  B.report(out, "B", true);
  Cm.report(out, "C", false);
}
static void add_(const json& in, json& out)
{
  Mat A(in["A"], in["la"]), Cm(in["C"], in["lc"]);
  try {
    A.with([&](auto& a) {
      Cm.with([&](auto& c) {
        if (in["op"] == "add") {
          if (in.value("dflt", false)) add(c, a, cx(in["alpha"]));
          else add(c, a, cx(in["alpha"]), cx(in["beta"]));
        } else {
          if (in.value("dflt", false)) _add(c, a, cx(in["alpha"]));
          else _add(c, a, cx(in["alpha"]), cx(in["beta"]));
        }
      });
    });
  } catch (std::runtime_error& e) {
    out["exc"] = e.what();
  }
  A.report(out, "A", true);
  Cm.report(out, "C", false);
}
static Reg b1("inner", prods), b2("outer", prods), b3("transform", prods), b4("add", add_), b5("_add", add_);
