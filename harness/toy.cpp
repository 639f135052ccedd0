#include "toy.hpp"
#include <unistd.h>
#include <sys/stat.h>

namespace vh {
long nlive = 0;
void (*on_eval)() = nullptr;
ToyHost* g_host = nullptr;

MatBase::buffer_t MatBase::get(int i)
{
  h.cb("matrix");
  h.watch(which == 0 ? "mC" : which == 1 ? "mH" : "mS");
  auto& k = h.ks.at(i);
  auto& b = which == 0 ? k.C : which == 1 ? k.HX : k.SX;
  MPI_Comm c = MPI_COMM_SELF;
  if (h.sc.value("slabcomm", "self") == "world") c = h.comm;
  return b.desc(h.mt, c);
}
int MatBase::size() const { return h.ks.size(); }
MPI_Comm MatBase::mpicomm(int) const { return MPI_COMM_SELF; }
MPI_Comm MatBase::mpicomm() const { return h.comm; }
MatBase::kindex_t MatBase::kpoint_index(int i) const { return h.ks.at(i).key; }

VecBase::buffer_t VecBase::get(int i)
{
  h.watch(which == 0 ? "vfn" : which == 1 ? "vek" : "vgk");
  auto& k = h.ks.at(i);
  auto& b = which == 0 ? k.fn : which == 1 ? k.ek : k.gk;
  return buffer_t({b.stride}, {b.n}, b.st.data() + 3, memory_type::host);
}
int VecBase::size() const { return h.ks.size(); }
MPI_Comm VecBase::mpicomm(int) const { return MPI_COMM_SELF; }
MPI_Comm VecBase::mpicomm() const { return h.comm; }
VecBase::kindex_t VecBase::kpoint_index(int i) const { return h.ks.at(i).key; }

ScaBase::buffer_t ScaBase::get(int i)
{
  h.watch("swk");
  return h.ks.at(i).w;
}
int ScaBase::size() const { return h.ks.size(); }
MPI_Comm ScaBase::mpicomm(int) const { return MPI_COMM_SELF; }
MPI_Comm ScaBase::mpicomm() const { return h.comm; }
ScaBase::kindex_t ScaBase::kpoint_index(int i) const { return h.ks.at(i).key; }

static Mat rnd(std::mt19937_64& g, int m, int n)
{
  std::normal_distribution<double> d(0, 1);
  Mat A(m, n);
  for (auto& x : A.a) {
    double re = d(g), im = d(g);
    x = cplx(re, im);
  }
  return A;
}

Mat polar(Mat A);

// another presentation of the same problem (spec/Symmetry.tla)
void ToyHost::transform(std::vector<KPoint>& all, const json& q, const std::string& lc, const std::string& lh)
{
  std::string t = q["t"];
  std::mt19937_64 g(q.value("seed", 1));
  std::uniform_real_distribution<double> U01(0, 1);
  auto start = [&](KPoint& kp, const Mat& X) {
    kp.npw = X.m;
    kp.C.init(X.m, nb, lc);
    kp.C.put(X);
    kp.C.snap();
    kp.HX.init(X.m, nb, lh);
    kp.SX.init(X.m, nb, lh);
    kp.gk.init(X.m);
    for (int i = 0; i < X.m; ++i) kp.gk.at(i) = 0.3 * i;
    kp.gk.snap();
  };
  auto axpy = [](Mat& A, double a, const Mat& B) {
    for (size_t i = 0; i < A.a.size(); ++i) A.a[i] += a * B.a[i];
  };
  if (t == "shift") {
    for (auto& kp : all) axpy(kp.H0, q["c"].get<double>(), kp.S);
  } else if (t == "scale") {
    double l = q["l"];
    for (auto& kp : all) {
      for (auto& x : kp.H0.a) x *= l;
      for (auto& x : kp.P.a) x /= l;
    }
    for (auto& x : u) x *= l;
    amp *= l;
    drop_A *= l;
  } else if (t == "phase") {
    for (auto& kp : all) {
      std::vector<cplx> d;
      for (int i = 0; i < kp.npw; ++i) d.push_back(std::polar(1.0, 6.28 * U01(g)));
      for (Mat* A : {&kp.H0, &kp.S, &kp.P})
        for (int i = 0; i < kp.npw; ++i)
          for (int j = 0; j < kp.npw; ++j) (*A)(i, j) *= d[i] * std::conj(d[j]);
      Mat X = kp.C.get();
      for (int i = 0; i < kp.npw; ++i)
        for (int j = 0; j < nb; ++j) X(i, j) *= d[i];
      start(kp, X);
    }
  } else if (t == "conj") {
    for (auto& kp : all) {
      for (Mat* A : {&kp.H0, &kp.S, &kp.P})
        for (auto& x : A->a) x = std::conj(x);
      Mat X = kp.C.get();
      for (auto& x : X.a) x = std::conj(x);
      start(kp, X);
    }
  } else if (t == "gl") {
    // needs hosts without interaction: it is diagonal in the original basis
    for (auto& kp : all) {
      int n = kp.npw;
      Mat A = rnd(g, n, n), B;
      for (auto& x : A.a) x *= 0.25 / std::sqrt(double(n));
      for (int i = 0; i < n; ++i) A(i, i) += 1.0;
      if (q.value("unitary", false)) A = polar(A);
      if (!inv(A, B)) throw std::runtime_error("harness: change of basis");
      kp.H0 = mul(herm(A), mul(kp.H0, A));
      kp.S = mul(herm(A), mul(kp.S, A));
      kp.P = mul(B, mul(kp.P, herm(B)));
      for (Mat* M : {&kp.H0, &kp.S, &kp.P}) {
        Mat Mh = herm(*M);
        for (size_t i = 0; i < Mh.a.size(); ++i) M->a[i] = 0.5 * (M->a[i] + Mh.a[i]);
      }
      start(kp, mul(B, kp.C.get()));
    }
  } else if (t == "pad") {
    int e = q.value("n", 2);
    for (auto& kp : all) {
      int n = kp.npw;
      auto grow = [&](Mat& A, double d) {
        Mat R(n + e, n + e);
        for (int i = 0; i < n + e; ++i)
          for (int j = 0; j < n + e; ++j) R(i, j) = i < n && j < n ? A(i, j) : i == j ? cplx(d) : cplx(0);
        A = R;
      };
      grow(kp.H0, 7.0);
      grow(kp.S, 1.0);
      grow(kp.P, 0.5);
      Mat X = kp.C.get(), Y(n + e, nb);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < nb; ++j) Y(i, j) = X(i, j);
      start(kp, Y);
      u.resize(std::max<size_t>(u.size(), n + e), 0.0);
    }
    // no interaction in the additional functions of any k-point is needed: they stay empty
    phi.resize(u.size(), 0.0);
  } else if (t == "cols") {
    for (auto& kp : all) {
      std::vector<int> o(nb);
      for (int i = 0; i < nb; ++i) o[i] = i;
      std::shuffle(o.begin(), o.end(), g);
      Mat X = kp.C.get(), Y = X;
      for (int i = 0; i < kp.npw; ++i)
        for (int j = 0; j < nb; ++j) Y(i, j) = X(i, o[j]);
      start(kp, Y);
    }
  } else if (t == "clone") {
    auto c = all[q.value("k", 0) % all.size()].key.first;
    int fresh = 1;
    for (auto& kp : all) fresh = std::max(fresh, kp.key.first + 1);
    std::vector<KPoint> add;
    for (auto& kp : all)
      if (kp.key.first == c) {
        kp.w /= 2;
        add.push_back(kp);
        add.back().key.first = fresh;
      }
    for (auto& kp : add) all.push_back(kp);
  } else if (t == "spin") {
    occ /= 2;
    std::vector<KPoint> add;
    for (auto& kp : all) {
      for (int j = 0; j < nb; ++j) kp.fn.at(j) /= 2;
      kp.fn.snap();
      add.push_back(kp);
      add.back().key.second = kp.key.second + 1;
    }
    for (auto& kp : add) all.push_back(kp);
  } else if (t == "order") {
    std::reverse(all.begin(), all.end());
    for (auto& kp : all) kp.key = {500 - kp.key.first, 1 - kp.key.second};
  } else
    throw std::runtime_error("harness: unknown transformation " + t);
}

ToyHost::ToyHost(const json& sc_, MPI_Comm comm) : sc(sc_), comm(comm)
{
  PMPI_Comm_rank(comm, &rank);
  PMPI_Comm_size(comm, &nranks);
  std::mt19937_64 g(sc.value("seed", 1));
  std::uniform_real_distribution<double> U01(0, 1);
  int nk = sc.value("nk", 1), nspin = sc.value("nspin", 1);
  nb = sc.value("nb", 3);
  ne = sc.value("ne", 3);
  smear = sc.value("smear", 0);
  occ = sc.value("occ", nspin == 2 ? 1 : 2);
  T = sc.value("T", 3000.0);
  kT = T * KB;
  amp = sc.value("amp", 0.0);
  drop_A = sc.value("dropA", 0.0);
  drop_n = sc.value("dropN", 0);
  freq = sc.value("freq", 0.0);
  if (sc.value("memtype", "host") == "device") mt = memory_type::device;
  if (sc.value("memtype", "host") == "none") mt = memory_type::none;
  std::vector<int> npws = sc.value("npw", std::vector<int>{6});
  double Smix = sc.value("Smix", 0.2), Uint = sc.value("U", 0.3), spread = sc.value("spread", 1.0);
  double pscale = sc.value("pscale", 1.0), shift = sc.value("shift", 0.0);
  int nkey = nk * nspin;
  std::vector<double> w(nk);
  double ws = 0;
  for (auto& x : w) ws += (x = sc.value("eqw", false) ? 1.0 : 0.3 + U01(g));
  for (auto& x : w) x /= ws;
  std::vector<KPoint> all;
  int gmaxn = 0;
  std::string lc = sc.value("layoutC", "dense"), lh = sc.value("layoutH", "dense");
  for (int ik = 0; ik < nk; ++ik)
    for (int is = 0; is < nspin; ++is) {
      KPoint kp;
      kp.key = {ik, is};
      kp.npw = npws[ik % npws.size()];
      kp.nb = nb;
      kp.w = w[ik];
      int n = kp.npw;
      gmaxn = std::max(gmaxn, n);
      Mat A = rnd(g, n, n);
      kp.H0 = Mat(n, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          kp.H0(i, j) = 0.15 * spread * (A(i, j) + std::conj(A(j, i))) / 2.0;
      for (int i = 0; i < n; ++i) kp.H0(i, i) += spread * (0.35 * i - 0.5) + shift;
      Mat B = rnd(g, n, n);
      Mat BB = mul(herm(B), B);
      kp.S = Mat(n, n);
      kp.P = Mat(n, n);
      Mat Cm = rnd(g, n, n);
      Mat CC = mul(herm(Cm), Cm);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
          kp.S(i, j) = Smix * BB(i, j) / double(n);
          kp.P(i, j) = pscale * sc.value("Pmix", 0.1) * CC(i, j) / double(n);
        }
      for (int i = 0; i < n; ++i) {
        kp.S(i, i) += 1.0;
        kp.P(i, i) += pscale / (1 + 0.3 * i);
      }
      // S-orthonormal start: Gram-Schmidt on random vectors biased to low index
      Mat X = rnd(g, n, nb);
      for (int j = 0; j < nb; ++j)
        for (int i = 0; i < n; ++i) X(i, j) *= (i == j ? 2.0 : 0.0) + sc.value("startnoise", 0.6);
      for (int j = 0; j < nb; ++j) {
        for (int rep = 0; rep < 2; ++rep)
          for (int l = 0; l < j; ++l) {
            cplx s = 0;
            for (int a = 0; a < n; ++a)
              for (int b = 0; b < n; ++b) s += std::conj(X(a, l)) * kp.S(a, b) * X(b, j);
            for (int a = 0; a < n; ++a) X(a, j) -= s * X(a, l);
          }
        cplx s = 0;
        for (int a = 0; a < n; ++a)
          for (int b = 0; b < n; ++b) s += std::conj(X(a, j)) * kp.S(a, b) * X(b, j);
        for (int a = 0; a < n; ++a) X(a, j) /= std::sqrt(s.real());
      }
      kp.C.init(n, nb, lc);
      kp.C.put(X);
      kp.C.snap();
      kp.HX.init(n, nb, lh);
      kp.SX.init(n, nb, lh);
      kp.fn.init(nb, sc.value("strideF", 1));
      kp.ek.init(nb, sc.value("strideE", 1));
      kp.gk.init(n, sc.value("strideE", 1));
      for (int i = 0; i < n; ++i) kp.gk.at(i) = 0.3 * i;
      kp.gk.snap();
      for (int j = 0; j < nb; ++j) kp.fn.at(j) = std::min(occ, double(ne) / (nb * nspin));
      kp.fn.snap();
      kp.smear = smear;
      all.push_back(kp);
    }
  u.resize(gmaxn);
  phi.resize(gmaxn);
  for (auto& x : u) x = Uint * (0.5 + U01(g));
  for (auto& x : phi) x = 6.28 * U01(g);
  if (sc.value("eps", 0.0) > 0) {
    // tiny change of the problem: measures how strongly rounding is amplified
    std::mt19937_64 ge(sc.value("epsseed", 1));
    std::normal_distribution<double> nd(0, 1);
    double eps = sc.value("eps", 0.0);
    for (auto& kp : all)
      for (int i = 0; i < kp.npw; ++i) kp.H0(i, i) += eps * nd(ge);
  }
  for (int i = 0; i < nkey; ++i) all[i].orig = i;
  if (sc.contains("tf")) {
    for (auto& q : sc["tf"]) transform(all, q, lc, lh);
    nkey = all.size();
  }
  // relabelling / order of enumeration / distribution
  if (sc.contains("keys"))
    for (int i = 0; i < nkey; ++i) all[i].key = {sc["keys"][i][0].get<int>(), sc["keys"][i][1].get<int>()};
  std::vector<int> order(nkey);
  for (int i = 0; i < nkey; ++i) order[i] = i;
  if (sc.contains("order")) order = sc["order"].get<std::vector<int>>();
  std::vector<int> dist(nkey);
  for (int i = 0; i < nkey; ++i) dist[i] = i % nranks;
  if (sc.contains("dist")) dist = sc["dist"].get<std::vector<int>>();
  for (auto& k : all) allkeys.push_back(k.key);
  for (int i : order)
    if (dist[i] == rank) ks.push_back(all[i]);
  rho.assign(u.size(), 0);
  physics();
  if (sc.contains("gap") && nb > 1) {
    // mix the first two bands such that their energies differ by a prescribed gap only
    double gap = sc.value("gap", 0.0);
    for (int rep = 0; rep < 3; ++rep) {
      for (auto& kp : ks) {
        Mat X = kp.C.get(), h = mul(herm(X), mul(kp.H, X));
        double a = h(0, 0).real(), b = h(1, 1).real(), c = std::abs(h(0, 1));
        cplx ph = c > 0 ? std::conj(h(0, 1)) / c : cplx(1);
        double R = std::hypot(a - b, 2 * c);
        if (!(R > 0)) continue;
        double th = 0.5 * (std::atan2(2 * c, a - b) + std::acos(std::max(-1.0, std::min(1.0, gap / R))));
        for (int i = 0; i < kp.npw; ++i) {
          cplx x0 = X(i, 0), x1 = X(i, 1) * ph;
          X(i, 0) = std::cos(th) * x0 + std::sin(th) * x1;
          X(i, 1) = -std::sin(th) * x0 + std::cos(th) * x1;
        }
        kp.C.put(X);
        kp.C.snap();
      }
      physics();
    }
  }
  for (auto& kp : ks) {
    kp.Xcur = kp.C.get();
    kp.Xbase = kp.Xcur;
    kp.fcur.resize(nb);
    for (int j = 0; j < nb; ++j) kp.fcur[j] = kp.fn.at(j);
  }
  have_base = true;
}

void ToyHost::physics()
{
  int G = u.size();
  std::vector<double> r(G, 0.0);
  for (auto& kp : ks)
    for (int j = 0; j < nb; ++j)
      for (int i = 0; i < kp.npw; ++i) r[i] += kp.w * kp.fn.at(j) * std::norm(kp.C.at(i, j));
  PMPI_Allreduce(r.data(), rho.data(), G, MPI_DOUBLE, MPI_SUM, comm);
  double e1 = 0;
  for (auto& kp : ks) {
    Mat X = kp.C.get();
    Mat h0x = mul(kp.H0, X);
    for (int j = 0; j < nb; ++j) {
      double s = 0;
      for (int i = 0; i < kp.npw; ++i) s += (std::conj(X(i, j)) * h0x(i, j)).real();
      e1 += kp.w * kp.fn.at(j) * s;
    }
    kp.H = kp.H0;
    for (int i = 0; i < kp.npw; ++i) kp.H(i, i) += u[i] * rho[i];
    Mat hx = mul(kp.H, X);
    kp.HX.put(hx);
    kp.HX.snap();
    kp.SX.put(mul(kp.S, X));
    kp.SX.snap();
    for (int j = 0; j < nb; ++j) {
      double s = 0;
      for (int i = 0; i < kp.npw; ++i) s += (std::conj(X(i, j)) * hx(i, j)).real();
      kp.ek.at(j) = s;
    }
    kp.ek.snap();
  }
  double e2 = 0;
  for (int g = 0; g < G; ++g) e2 += 0.5 * u[g] * rho[g] * rho[g];
  E = gsum(e1) + e2 + perturb();
}

// lowest nb levels of the mean field the host is in (generalised eigenproblem, cyclic Jacobi)
std::vector<double> ToyHost::levels(const KPoint& kp)
{
  int n = kp.npw;
  Mat L(n, n), Li, A;
  for (int j = 0; j < n; ++j)
    for (int i = j; i < n; ++i) {
      cplx x = kp.S(i, j);
      for (int k = 0; k < j; ++k) x -= L(i, k) * std::conj(L(j, k));
      L(i, j) = i == j ? cplx(std::sqrt(x.real())) : x / L(j, j);
    }
  if (!inv(L, Li)) return {};
  A = mul(Li, mul(kp.H, herm(Li)));
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        double c = std::abs(A(p, q));
        off += c * c;
        if (c < 1e-300) continue;
        cplx ph = A(p, q) / c;
        double th = 0.5 * std::atan2(2 * c, A(q, q).real() - A(p, p).real());
        double co = std::cos(th), si = std::sin(th);
        for (int i = 0; i < n; ++i) {
          cplx x = A(i, p), y = A(i, q);
          A(i, p) = co * x - si * std::conj(ph) * y;
          A(i, q) = si * ph * x + co * y;
        }
        for (int i = 0; i < n; ++i) {
          cplx x = A(p, i), y = A(q, i);
          A(p, i) = co * x - si * ph * y;
          A(q, i) = si * std::conj(ph) * x + co * y;
        }
      }
    if (off < 1e-28) break;
  }
  std::vector<double> e;
  for (int i = 0; i < n; ++i) e.push_back(A(i, i).real());
  std::sort(e.begin(), e.end());
  e.resize(nb);
  return e;
}

double ToyHost::entropy_from_fn()
{
  // kT * S term (negative) recomputed from the occupations alone (invertible families only)
  if (smear > 2) return NAN;
  typedef long double L;
  L tot = 0;
  for (auto& kp : ks)
    for (int j = 0; j < nb; ++j) {
      L p = kp.fn.at(j) / occ;
      if (!(p >= 0 && p <= 1)) return NAN;
      L s;
      if (smear == 0) {
        L q = 1 - p;
        s = 0;
        if (p > 0) s -= p * logl(p);
        if (q > 0) s -= q * logl(q);
      } else {
        L a = -12, b = 12;
        for (int it = 0; it < 200; ++it) {
          L c = (a + b) / 2;
          if (Smear::f(smear, c) < p)
            a = c;
          else
            b = c;
        }
        s = Smear::s(smear, (a + b) / 2);
      }
      tot += kp.w * occ * s;
    }
  return -kT * gsum((double)tot);
}

// read records appended to nlcg.json since the last callback (master rank only)
void ToyHost::poll()
{
  if (rank != 0 || !lib_running) return;
  struct { long sz; } st_;
  struct stat sb;
  if (stat("nlcg.json", &sb) == 0 && !S_ISREG(sb.st_mode)) return;
  FILE* f = std::fopen("nlcg.json", "rb");
  if (!f) {
    stale_json = false;
    json_off = 0;
    return;
  }
  std::fseek(f, 0, SEEK_END);
  st_.sz = std::ftell(f);
  if (stale_json) {
    // a log of an earlier run lies here until the library removes it
    if (stale_len < 0) stale_len = st_.sz;
    if (st_.sz == stale_len) {
      std::fclose(f);
      return;
    }
    stale_json = false;
    json_off = 0;
  }
  if ((size_t)st_.sz <= json_off) {
    std::fclose(f);
    return;
  }
  std::string txt(st_.sz - json_off, 0);
  std::fseek(f, json_off, SEEK_SET);
  if (std::fread(&txt[0], 1, txt.size(), f) != txt.size()) {}
  std::fclose(f);
  json_off = st_.sz;
  std::istringstream is(txt);
  while (is.peek() != EOF) {
    json r;
    try {
      is >> r;
    } catch (std::exception& ex) {
      trace().emit({{"e", "rec"}, {"n", neval}, {"bad", std::string("unparsable: ") + ex.what()}});
      break;
    }
    json ev = {{"e", "rec"}, {"n", neval}, {"bad", ""}};
    std::string bad;
    auto num = [&](const char* k) -> double {
      if (!r.contains(k)) {
        bad += std::string("missing ") + k + ";";
        return NAN;
      }
      if (r[k].is_null()) return NAN;
      return r[k].get<double>();
    };
    if (r.value("type", "") != "cg_iteration") bad += "type;";
    ev["step"] = r.contains("step") ? r["step"].get<int>() : -99;
    ev["F"] = D(num("F"));
    ev["EKS"] = D(num("EKS"));
    ev["S"] = D(num("entropy"));
    ev["slope"] = D(num("slope_x"));
    ev["mu"] = D(num("fermi_energy"));
    double comps = NAN;
    if (r.contains("ks_energy_comps") && r["ks_energy_comps"].contains("etot") &&
        r["ks_energy_comps"].contains("half"))
      comps = std::max(std::abs(r["ks_energy_comps"]["etot"].get<double>() - E),
                       std::abs(r["ks_energy_comps"]["half"].get<double>() - E / 2));
    ev["compErr"] = D(comps);
    ev["hostE"] = D(E);
    ev["hostMu"] = D(mu);
    bool bands = r.contains("eta") || r.contains("fn");
    ev["bands"] = bands;
    if (bands) {
      std::map<key_t_, std::vector<double>> eta, fn;
      auto rd = [&](const char* k, std::map<key_t_, std::vector<double>>& m) {
        if (!r.contains(k) || !r[k].is_array()) {
          bad += std::string("no ") + k + ";";
          return;
        }
        for (auto& x : r[k]) {
          key_t_ kk{x.value("ik", -1), x.value("ispn", -1)};
          if (m.count(kk)) bad += "dup key;";
          m[kk] = x["value"].get<std::vector<double>>();
        }
      };
      rd("eta", eta);
      rd("fn", fn);
      std::set<key_t_> want(allkeys.begin(), allkeys.end());
      bool keysok = want.size() == eta.size() && want.size() == fn.size();
      for (auto& k : want) keysok = keysok && eta.count(k) && fn.count(k) &&
                                    eta[k].size() == (size_t)nb && fn[k].size() == (size_t)nb;
      ev["keysOk"] = keysok;
      double rmu = num("fermi_energy");
      double fe = 0, hostfe = 0;
      long double s = 0;
      if (keysok) {
        for (auto& k : want)
          for (int j = 0; j < nb; ++j) {
            long double x = (rmu - eta[k][j]) / (long double)kT;
            fe = std::max(fe, std::abs(double(fn[k][j] - occ * Smear::f(smear, x))));
          }
        for (auto& kp : ks)
          for (int j = 0; j < nb; ++j) hostfe = std::max(hostfe, std::abs(kp.fn.at(j) - fn[kp.key][j]));
      }
      if (keysok) {
        std::vector<std::string> bv;
        for (auto& k : allkeys)
          for (int j = 0; j < nb; ++j) bv.push_back(D(eta[k][j])), bv.push_back(D(fn[k][j]));
        ev["bandv"] = bv;
      }
      ev["fErr"] = D(keysok ? fe : INFINITY);
      ev["hostfErr"] = D(keysok ? hostfe : INFINITY);
      // entropy from eta: needs the weights of all keys -> only when they are all local
      if (keysok && ks.size() == want.size()) {
        for (auto& kp : ks)
          for (int j = 0; j < nb; ++j)
            s += kp.w * occ * Smear::s(smear, (rmu - eta[kp.key][j]) / (long double)kT);
        ev["sErr"] = D(std::abs(double(-kT * s) - num("entropy")));
      }
    } else {
      ev["keysOk"] = true;
    }
    ev["bad"] = bad;
    rec_seen++;
    newrec = true;
    trace().emit(ev);
  }
}

bool ToyHost::displacement(const Mat& Xb, const Mat& S, const Mat& X, Mat& W)
{
  Mat R;
  W = Mat(X.m, X.n);
  if (!inv(mul(mul(herm(Xb), S), X), R)) return false;
  Mat Y = mul(X, R);
  for (size_t i = 0; i < W.a.size(); ++i) W.a[i] = Y.a[i] - Xb.a[i];
  return true;
}

double ToyHost::base_distance()
{
  double d = 0;
  for (auto& kp : ks) {
    Mat W;
    if (!displacement(kp.Xbase, kp.S, kp.C.get(), W)) return INFINITY;
    for (auto& x : W.a) d += std::norm(x);
  }
  return std::sqrt(d);
}

// unitary polar factor by Newton iteration
Mat polar(Mat A)
{
  for (int it = 0; it < 60; ++it) {
    Mat R;
    if (!inv(A, R)) return A;
    Mat H = herm(R);
    for (size_t i = 0; i < A.a.size(); ++i) A.a[i] = 0.5 * (A.a[i] + H.a[i]);
  }
  return A;
}

// the host is free to keep its data elsewhere after every evaluation
void ToyHost::relocate()
{
  if (!sc.contains("moving")) return;
  std::string what = sc["moving"]["bufs"], when = sc["moving"]["when"];
  if ((when == "first" && neval > 1) || (when == "later" && neval < 3) || (when == "even" && neval % 2)) return;
  for (auto& kp : ks)
    for (char c : what) {
      if (c == 'C') kp.C.move();
      if (c == 'H') kp.HX.move();
      if (c == 'F') kp.fn.move();
      if (c == 'E') kp.ek.move();
    }
}

bool ToyHost::buffers_intact(bool Ctoo)
{
  bool ok = true;
  for (auto& kp : ks) {
    ok = ok && kp.HX.same() && kp.SX.same() && kp.ek.same() && kp.gk.same();
    ok = ok && kp.C.rest() && kp.HX.rest() && kp.fn.rest() && kp.ek.rest();
    if (Ctoo) ok = ok && kp.C.same();
  }
  return ok;
}

void ToyHost::set_fn(const std::vector<std::pair<int, int>>& keys,
                     const std::vector<std::vector<double>>& fn)
{
  poll();
  cb("setfn");
  std::string bad;
  if (keys.size() != fn.size()) bad += "length;";
  if (keys.size() != ks.size()) bad += "number of keys;";
  std::set<key_t_> seen;
  for (size_t i = 0; i < std::min(keys.size(), fn.size()); ++i) {
    seen.insert(keys[i]);
    bool found = false;
    for (auto& kp : ks)
      if (kp.key == keys[i]) {
        found = true;
        if (fn[i].size() != (size_t)nb) bad += "bands;";
        for (int j = 0; j < std::min<int>(nb, fn[i].size()); ++j) kp.fn.at(j) = fn[i][j];
        kp.fn.snap();
      }
    if (!found) bad += "foreign key;";
  }
  if (seen.size() != ks.size()) bad += "not all keys;";
  fresh_fn = true;
  given = true;
  trace().emit({{"e", "setfn"}, {"n", neval}, {"bad", bad}});
}

void ToyHost::compute()
{
  poll();
  cb("compute");
  if (on_eval) on_eval();
  given = false;
  neval++;
  if (neval > max_evals) throw std::runtime_error("harness: evaluation budget exceeded");
  // ranks agree on whether a record was written since the last evaluation
  int nr = newrec ? 1 : 0;
  PMPI_Bcast(&nr, 1, MPI_INT, 0, comm);
  newrec = false;
  if (nr) {
    rec_any = true;
    for (auto& kp : ks) {
      kp.Xbase = kp.Xcur;
      if (etaok) kp.eta = kp.etaT;
    }
    have_w1 = false;
    nls = 0;
  }
  if (rec_any) nls++;
  sw = 0;
  if (neval == 1) etaok = false;
  bool intact = buffers_intact(false);
  int stray = 0;
  bool fnintact = true;
  for (auto& kp : ks) {
    stray += kp.C.stray();
    fnintact = fnintact && kp.fn.same();
  }
  bool finite = true;
  double orth = 0;
  for (auto& kp : ks) {
    Mat X = kp.C.get();
    Mat g = mul(herm(X), mul(kp.S, X));
    for (int i = 0; i < nb; ++i)
      for (int j = 0; j < nb; ++j) {
        double e = std::abs(g(i, j) - (i == j ? 1.0 : 0.0));
        if (!(e <= 1e300)) finite = false;
        orth = std::max(orth, e);
      }
  }
  orth = gmax(finite ? orth : NAN);
  // displacement from the base point: X_t = (X+tz)(..)^{-1/2} U  =>  tz = X_t (X^H S X_t)^{-1} - X
  double W2 = 0, dot = 0, W12 = 0, tang = 0;
  bool sing = false;
  std::vector<Mat> Ws;
  for (auto& kp : ks) {
    Mat X = kp.C.get();
    Mat W(kp.npw, nb);
    if (!(finite && displacement(kp.Xbase, kp.S, X, W))) sing = true;
    for (size_t i = 0; i < W.a.size(); ++i) W2 += std::norm(W.a[i]);
    if (have_w1)
      for (size_t i = 0; i < W.a.size(); ++i) {
        dot += (std::conj(kp.W1.a[i]) * W.a[i]).real();
        W12 += std::norm(kp.W1.a[i]);
      }
    Ws.push_back(W);
  }
  // direction oracle (first trial after a record): steepest descent D, transported previous direction
  double sdres = -1, cgres = -1, gam = 0;
  if (!have_w1 && rec_any) {
    double dz = 0, dd = 0, zz = 0, ztz = 0, zt2 = 0, rr = 0, frx = 0, szp = 0;
    double fre = 0, sze = 0, sen = 0;  // pseudo-Hamiltonian part: steepest descent, previous direction, rounding level
    std::vector<Mat> Ge;
    if (etaok) {
      long double sd = 0, sn = 0;
      for (auto& kp : ks) {
        Mat hs = mul(herm(kp.Xbase), mul(kp.H, kp.Xbase));
        for (int i = 0; i < nb; ++i) {
          long double d = occ * Smear::d(smear, (mu - kp.eta[i]) / (long double)kT);
          sd += kp.w * d;
          sn += kp.w * (hs(i, i).real() - kp.eta[i]) * d;
        }
      }
      double sdg = gsum((double)sd), sng = gsum((double)sn);
      // the shift of the chemical potential is ill-conditioned where the count is stationary
      if (std::abs(sdg) > 1e-13 && std::abs(sdg) < 1e-10) sen = 1e300;
      if (std::abs(sdg) >= 1e-10 && rank == 0) sen += std::abs(kappa * sng / kT * sng / sdg) * occ * nb * 1e-12 / kT / std::abs(sdg);
      for (auto& kp : ks) {
        Mat hs = mul(herm(kp.Xbase), mul(kp.H, kp.Xbase));
        Mat g(nb, nb);
        for (int i = 0; i < nb; ++i)
          for (int j = 0; j < nb; ++j) {
            long double xi = (mu - kp.eta[i]) / (long double)kT, xj = (mu - kp.eta[j]) / (long double)kT;
            if (i == j) {
              long double d = occ * Smear::d(smear, xi) / kT;
              double m = std::abs(sdg) < 1e-12 ? 0.0 : sng / sdg;
              g(i, i) = kp.w * double(d) * (m - (hs(i, i).real() - kp.eta[i]));
              // pseudo-energies are known to about 1e-12
              sen += std::abs(kp.w * kappa * std::pow(hs(i, i).real() - kp.eta[i] - m, 2)) * 1e-12 / kT / kT * occ;
            } else {
              long double q = std::abs((double)(xi - xj)) < 1e-4 ? Smear::d(smear, (xi + xj) / 2) : (Smear::f(smear, xi) - Smear::f(smear, xj)) / (xi - xj);
              g(i, j) = -kp.w * double(occ * q / kT) * hs(i, j);
              double de = std::abs(kp.eta[i] - kp.eta[j]);
              sen += kp.w * kappa * std::norm(hs(i, j)) * (1e-12 / kT / kT * occ + (de > 1e-11 ? 4e-16 * occ / de : 0.0));
            }
          }
        Ge.push_back(g);
      }
    }
    std::vector<Mat> Ds, Zt;
    bool okd = !sing;
    for (size_t q = 0; q < ks.size(); ++q) {
      auto& kp = ks[q];
      Mat HX = mul(kp.H, kp.Xbase), SX = mul(kp.S, kp.Xbase);
      Mat PS = apply_P(kp, SX), PH = apply_P(kp, HX);
      Mat Ri;
      okd = okd && inv(mul(herm(SX), PS), Ri);
      if (!okd) Ri = Mat(nb, nb);
      Mat ll = mul(Ri, mul(herm(SX), PH));
      Mat R = mul(SX, ll);
      for (size_t i = 0; i < R.a.size(); ++i) R.a[i] -= HX.a[i];
      Mat Dd = apply_P(kp, R);
      for (int j = 0; j < nb; ++j)
        for (int i = 0; i < kp.npw; ++i)
          frx += 2 * kp.w * (std::conj(kp.fcur[j] * HX(i, j) - R(i, j) - HX(i, j)) * Dd(i, j)).real();
      // direction of the pseudo-Hamiltonian
      if (etaok) {
        Mat hs = mul(herm(kp.Xbase), HX);
        kp.Ze = Mat(nb, nb);
        for (int i = 0; i < nb; ++i)
          for (int j = 0; j < nb; ++j) kp.Ze(i, j) = kappa * (hs(i, j) - (i == j ? kp.eta[i] : 0.0));
        for (size_t i = 0; i < Ge[q].a.size(); ++i) fre += (std::conj(Ge[q].a[i]) * kp.Ze.a[i]).real();
        if (prev_ok && kp.ZePrev.m) {
          Mat U = polar(mul(herm(kp.Xprev), SX));
          Mat Z = mul(herm(U), mul(kp.ZePrev, U));
          for (size_t i = 0; i < Ge[q].a.size(); ++i) sze += (std::conj(Ge[q].a[i]) * Z.a[i]).real();
        }
      }
      Mat Zc(kp.npw, nb);
      for (size_t i = 0; i < Zc.a.size(); ++i) {
        Zc.a[i] = Ws[q].a[i] / 0.2;
        dz += std::norm(Zc.a[i] - Dd.a[i]);
        dd += std::norm(Dd.a[i]);
        zz += std::norm(Zc.a[i]);
      }
      if (prev_ok && kp.Zprev.m) {
        Mat U = polar(mul(herm(kp.Xprev), SX));
        Mat Z = mul(kp.Zprev, U);
        Mat Gi;
        okd = okd && inv(mul(herm(SX), SX), Gi);
        if (!okd) Gi = Mat(nb, nb);
        Mat corr = mul(SX, mul(Gi, mul(herm(SX), Z)));
        for (size_t i = 0; i < Z.a.size(); ++i) {
          Z.a[i] -= corr.a[i];
          zt2 += std::norm(Z.a[i]);
          ztz += (std::conj(Z.a[i]) * (Zc.a[i] - Dd.a[i])).real();
        }
        for (int j = 0; j < nb; ++j)
          for (int i = 0; i < kp.npw; ++i)
            szp += 2 * kp.w * (std::conj(kp.fcur[j] * HX(i, j) - R(i, j) - HX(i, j)) * Z(i, j)).real();
        Zt.push_back(Z);
      }
      Ds.push_back(Dd);
      kp.Zcur = Zc;
    }
    dz = gsum(dz), dd = gsum(dd), zz = gsum(zz), zt2 = gsum(zt2), ztz = gsum(ztz);
    bool allok = gmax(okd ? 0 : 1) == 0;
    if (allok && dd > 0) sdres = std::sqrt(dz / dd);
    int pk = gmax(prev_ok ? 1 : 0);
    if (allok && pk && zt2 > 0) {
      gam = ztz / zt2;
      for (size_t q = 0; q < ks.size(); ++q)
        for (size_t i = 0; i < Ds[q].a.size(); ++i)
          rr += std::norm(ks[q].Zcur.a[i] - Ds[q].a[i] - (Zt.size() > q ? gam * Zt[q].a[i] : cplx(0)));
      rr = gsum(rr);
      cgres = zz > 0 ? std::sqrt(rr / zz) : -1;
    }
    double frp = frx_;
    frx_ = gsum(frx);
    szp = gsum(szp);
    cgs_ = (pk && allok) ? frx_ + frx_ / frp * szp : NAN;  // slope of the conjugate direction (orbital part)
    frp_ = pk ? frp : NAN;
    double frtp = frt_;
    frt_ = etaok ? frx_ + gsum(fre) : NAN;
    cgst_ = (pk && allok && etaok) ? frt_ + frt_ / frtp * (szp + gsum(sze)) : NAN;  // whole slope
    frtp_ = pk ? frtp : NAN;
    senp_ = sen_;
    sen_ = gsum(sen);
    if (!(sen_ < 1e200)) frt_ = cgst_ = NAN, sen_ = 0;
    zr_ = (pk && zz > 0) ? std::sqrt(zt2 / zz) : NAN;
    if (etaok && prev_ok && pk && !(sdres >= 0 && sdres < 1e-7))
      for (auto& kp : ks)
        if (kp.ZePrev.m) {
          Mat U = polar(mul(herm(kp.Xprev), mul(kp.S, kp.Xbase)));
          Mat Z = mul(herm(U), mul(kp.ZePrev, U));
          for (size_t i = 0; i < Z.a.size(); ++i) kp.Ze.a[i] += gam * Z.a[i];
        }
    for (auto& kp : ks) kp.ZePrev = kp.Ze;
    for (auto& kp : ks) {
      kp.Zprev = kp.Zcur;
      kp.Xprev = kp.Xbase;
    }
    prev_ok = allok;
  }
  W2 = gsum(W2);
  double sg = gmax(sing ? 1 : 0);
  if (!have_w1) {
    for (size_t i = 0; i < ks.size(); ++i) ks[i].W1 = Ws[i];
    dot = W12 = W2;
  } else {
    dot = gsum(dot);
    W12 = gsum(W12);
  }
  have_w1 = true;
  double t = W12 > 0 ? 0.2 * dot / W12 : 0;  // step in units in which the first trial is 0.2
  double perp = W2 - (W12 > 0 ? dot * dot / W12 : 0);
  double col = (W2 > 0) ? std::sqrt(std::max(0.0, perp) / W2) : 0;
  // pseudo-Hamiltonian at this step, in the basis of the orbitals handed over
  double offd = -1;
  if (etaok) {
    offd = 0;
    for (size_t q = 0; q < ks.size(); ++q) {
      auto& kp = ks[q];
      Mat E0(nb, nb);
      bool base = (kp.Ze.m == 0);
      for (int i = 0; i < nb; ++i) E0(i, i) = kp.eta[i];
      if (!base)
        for (size_t i = 0; i < E0.a.size(); ++i) E0.a[i] += t * kp.Ze.a[i];
      Mat U = polar(mul(herm(kp.Xbase), mul(kp.S, kp.C.get())));
      Mat M = mul(herm(U), mul(E0, U));
      kp.etaT.assign(nb, 0);
      for (int i = 0; i < nb; ++i)
        for (int j = 0; j < nb; ++j)
          if (i == j)
            kp.etaT[i] = M(i, i).real();
          else
            offd = std::max(offd, std::abs(M(i, j)));
    }
    offd = gmax(offd);
  }
  double nel = 0, fmin = 1e300, fmax = -1e300;
  for (auto& kp : ks)
    for (int j = 0; j < nb; ++j) {
      double f = kp.fn.at(j);
      nel += kp.w * f;
      fmin = std::min(fmin, f);
      fmax = std::max(fmax, f);
    }
  nel = gsum(nel);
  fmin = -gmax(-fmin);
  fmax = gmax(fmax);
  physics();
  for (auto& kp : ks) {
    kp.Xcur = kp.C.get();
    kp.C.snap();
    for (int j = 0; j < nb; ++j) kp.fcur[j] = kp.fn.at(j);
  }
  if (neval == 1) {
    // the minimiser starts from the host's band energies
    etaok = true;
    for (auto& kp : ks) {
      kp.eta.assign(nb, 0);
      for (int j = 0; j < nb; ++j) kp.eta[j] = kp.ek.at(j);
      kp.Ze = kp.ZePrev = Mat();
      kp.etaT.clear();
    }
  }
  relocate();
  double ent = entropy_from_fn();
  json ev = {{"e", "eval"},
             {"n", neval},
             {"E", D(E)},
             {"entF", D(ent)},
             {"freshfn", fresh_fn},
             {"orth", D(orth)},
             {"ne", D(nel)},
             {"fmin", D(fmin)},
             {"fmax", D(fmax)},
             {"t", D(t)},
             {"W", D(std::sqrt(W2))},
             {"col", D(col)},
             {"sdres", D(sdres)},
             {"cgres", D(cgres)},
             {"gam", D(gam)},
             {"sw", D(sw)},
             {"offd", D(offd)},
             {"frx", D(frx_)},
             {"cgs", D(cgs_)},
             {"frp", D(frp_)},
             {"zr", D(zr_)},
             {"frt", D(frt_)},
             {"cgst", D(cgst_)},
             {"frtp", D(frtp_)},
             {"sen", D(sen_)},
             {"senp", D(senp_)},
             {"sing", sg > 0},
             {"intact", intact && fnintact},
             {"stray", stray}};
  fresh_fn = false;
  wmu_pending = 1;
  trace().emit(ev);
}

}  // namespace vh
