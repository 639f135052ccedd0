// Scripted host: one k-point, one band, two basis functions.  X = (cos a, sin a) up to a phase.
// The response (energy E, tangential gradient g, preconditioner eigenvalue p) of every evaluation is
// taken from the scenario ("script"), i.e. from a behaviour of the specification.
#pragma once
#include "toy.hpp"
namespace vh {
struct ScriptHost : ToyHost
{
  json script;
  double g{0}, p{1};
  // the script holds as long as the evaluations take place where the behaviour has them; afterwards (a
  // curvature that vanishes but for rounding may be seen either way) the host stays a function of its state
  bool lost{false};
  Mat xb;
  double Eb{0}, gb{0}, pb{1};
  Mat x0_;
  double E0_{0}, g0_{0};
  ScriptHost(const json& sc_, MPI_Comm c) : ToyHost(sc_, c, 0)
  {
    script = sc["script"];
    nb = 1;
    ne = sc.value("ne", 1);
    occ = sc.value("occ", 1);
    smear = sc.value("smear", 0);
    T = sc.value("T", 1e-3);
    kT = T * KB;
    KPoint kp;
    kp.key = {0, 0};
    kp.npw = 2;
    kp.nb = 1;
    kp.w = 1.0;
    kp.smear = smear;
    kp.S = Mat(2, 2);
    kp.S(0, 0) = kp.S(1, 1) = 1;
    kp.H = Mat(2, 2);
    kp.P = Mat(2, 2);
    Mat X(2, 1);
    double a0 = 0.3;
    X(0, 0) = std::cos(a0);
    X(1, 0) = std::sin(a0);
    kp.C.init(2, 1, "dense");
    kp.C.put(X);
    kp.C.snap();
    kp.HX.init(2, 1, "dense");
    kp.SX.init(2, 1, "dense");
    kp.fn.init(1);
    kp.ek.init(1);
    kp.gk.init(2);
    kp.gk.at(0) = kp.gk.at(1) = 0;
    kp.gk.snap();
    kp.fn.at(0) = ne;
    kp.fn.snap();
    kp.fcur = {double(ne)};
    ks.push_back(kp);
    allkeys.push_back(kp.key);
    rho.assign(2, 0);
    ks[0].Xcur = ks[0].Xbase = X;
    have_base = true;
    physics();
  }
  Mat apply_P(KPoint& kp, const Mat& A) override
  {
    // P = |X><X| + p |t><t| at the point last evaluated
    cplx x0 = kp.Xcur(0, 0), x1 = kp.Xcur(1, 0), t0 = -std::conj(x1), t1 = std::conj(x0);
    Mat B(2, A.n);
    for (int j = 0; j < A.n; ++j) {
      cplx cx = std::conj(x0) * A(0, j) + std::conj(x1) * A(1, j);
      cplx ct = std::conj(t0) * A(0, j) + std::conj(t1) * A(1, j);
      B(0, j) = cx * x0 + p * ct * t0;
      B(1, j) = cx * x1 + p * ct * t1;
    }
    return B;
  }
  void physics() override
  {
    KPoint& kp = ks[0];
    Mat X = kp.C.get();
    // signed displacement along the tangent of the base point
    Mat W;
    if (displacement(kp.Xbase, kp.S, X, W)) {
      cplx t0 = -std::conj(kp.Xbase(1, 0)), t1 = std::conj(kp.Xbase(0, 0));
      sw = (std::conj(t0) * W(0, 0) + std::conj(t1) * W(1, 0)).real();
    }
    if (xb.a.empty() || xb(0, 0) != kp.Xbase(0, 0) || xb(1, 0) != kp.Xbase(1, 0)) {
      xb = kp.Xbase;
      Eb = E;
      gb = g;
      pb = p;
    }
    if (neval > 0) {
      // past the end of the script the last answer is repeated
      auto& s = script[std::min<size_t>(neval, script.size()) - 1];
      if (!lost) {
        double want = s.value("w", 0.0);
        lost = neval > (int)script.size() || !(std::abs(sw - want) <= 1e-3 * std::abs(want) + 1e-15);
        if (lost) {
          x0_ = xb;
          E0_ = Eb;
          g0_ = gb;
        }
        if (lost) trace().emit({{"e", "lost"}, {"n", neval}});
      }
      E = s["E"].is_string() ? std::nan("") : s["E"].get<double>();
      g = s["g"].get<double>();
      p = s["p"].get<double>();
      if (lost && neval > 2 && sc.value("flat", false)) {
        // a smooth energy that agrees with the accepted point: E0 + g0 sin(2 theta)
        Mat W0;
        displacement(x0_, kp.S, X, W0);
        cplx t0 = -std::conj(x0_(1, 0)), t1 = std::conj(x0_(0, 0));
        double th = std::atan((std::conj(t0) * W0(0, 0) + std::conj(t1) * W0(1, 0)).real());
        E = E0_ + g0_ * std::sin(2 * th);
        g = g0_ * std::cos(2 * th);
        p = 0.7;
      } else if (lost && neval > 2 && std::abs(sw) <= 2e-16) {
        E = Eb;
        g = gb;
        p = pb;
      }
    }
    double e = -1.0;
    cplx x0 = X(0, 0), x1 = X(1, 0), t0 = -std::conj(x1), t1 = std::conj(x0);
    // H = e 1 + g (|t><x| + |x><t|)
    cplx xs[2] = {x0, x1}, ts[2] = {t0, t1};
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j)
        kp.H(i, j) = (i == j ? e : 0.0) + g * (ts[i] * std::conj(xs[j]) + xs[i] * std::conj(ts[j]));
    kp.HX.put(mul(kp.H, X));
    kp.HX.snap();
    kp.SX.put(X);
    kp.SX.snap();
    kp.ek.at(0) = e;
    kp.ek.snap();
  }
};
typedef ToyOp ScriptOp;
}  // namespace vh
