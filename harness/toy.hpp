// Mean-field toy host with full instrumentation.
#pragma once
#include "host.hpp"

namespace vh {

Mat polar(Mat A);
struct ToyHost;
extern ToyHost* g_host;

struct KPoint
{
  key_t_ key;
  int npw, nb;
  double w;
  int smear;
  Mat H0, S, P, H;     // H: current hamiltonian
  Buf2 C, HX, SX;
  Buf1 fn, ek, gk;
  Mat Xcur;            // C at last compute
  Mat Xbase;           // C at the last recorded (accepted) point
  Mat W1;              // first displacement of the current line search
  std::vector<double> fcur;
  int orig{0};         // index in the un-permuted problem
  Mat Zprev, Xprev;    // previous search direction and the base point it belongs to
  Mat Zcur;
  std::vector<double> eta, etaT;   // pseudo-eigenvalues: base point / last evaluation (oracle)
  Mat Ze, ZePrev;                  // direction of the pseudo-Hamiltonian (oracle)
};

// objects given to the library and not yet released
extern long nlive;
extern void (*on_eval)();  // called at every evaluation
struct Counted
{
  Counted() { ++nlive; }
  Counted(const Counted&) { ++nlive; }
  ~Counted() { --nlive; }
};

struct MatBase : nlcglib::MatrixBaseZ
{
  Counted counted;
  ToyHost& h;
  int which;
  MatBase(ToyHost& h, int which) : h(h), which(which) {}
  buffer_t get(int i) override;
  const buffer_t get(int i) const override { return const_cast<MatBase*>(this)->get(i); }
  int size() const override;
  MPI_Comm mpicomm(int i) const override;
  MPI_Comm mpicomm() const override;
  kindex_t kpoint_index(int i) const override;
};
struct VecBase : nlcglib::VectorBaseZ
{
  Counted counted;
  ToyHost& h;
  int which;
  VecBase(ToyHost& h, int which) : h(h), which(which) {}
  buffer_t get(int i) override;
  const buffer_t get(int i) const override { return const_cast<VecBase*>(this)->get(i); }
  int size() const override;
  MPI_Comm mpicomm(int i) const override;
  MPI_Comm mpicomm() const override;
  kindex_t kpoint_index(int i) const override;
};
struct ScaBase : nlcglib::ScalarBaseZ
{
  Counted counted;
  ToyHost& h;
  ScaBase(ToyHost& h) : h(h) {}
  buffer_t get(int i) override;
  const buffer_t get(int i) const override { return const_cast<ScaBase*>(this)->get(i); }
  int size() const override;
  MPI_Comm mpicomm(int i) const override;
  MPI_Comm mpicomm() const override;
  kindex_t kpoint_index(int i) const override;
};

// failures of the host: "a" derived from runtime_error, "b" logic_error, "c" no std::exception at all
struct HostError : std::runtime_error
{
  int code;
  HostError(int code) : std::runtime_error("host failure"), code(code) {}
};
struct HostPlainError
{
  int code;
};

struct ToyHost : nlcglib::EnergyBase
{
  std::map<std::string, int> cbs;  // callbacks so far, by kind
  bool failed{false};              // the host has raised its error
  std::thread::id caller{std::this_thread::get_id()};
  bool strict{false};              // calls are watched: thread, and none after the end of the call
  bool given{false};               // occupations were handed over since the last evaluation
  void watch(const char* kind)
  {
    if (!strict) return;
    if (std::this_thread::get_id() != caller) {
      // nothing but this line: another thread may be inside the host
      std::string l = std::string("{\"e\":\"thread\",\"cb\":\"") + kind + "\"}\n";
      if (trace().f && write(fileno(trace().f), l.data(), l.size())) {}
      _exit(95);
    }
    bool fresh = !given;
    for (auto& kp : ks) fresh = fresh && kp.C.same();
    trace().emit({{"e", "cb"}, {"cb", kind}, {"fresh", fresh}, {"late", !lib_running}});
  }
  void cb(const char* kind)
  {
    watch(kind);
    if (!lib_running) return;
    int n = ++cbs[kind];
    if (failed) {
      trace().emit({{"e", "after"}, {"cb", kind}});
      return;
    }
    if (!sc.contains("fault")) return;
    auto& f = sc["fault"];
    if (f["cb"] != kind || f["n"] != n) return;
    failed = true;
    for (auto& kp : ks) kp.C.snap(), kp.fn.snap();
    trace().emit({{"e", "fault"}, {"cb", kind}, {"n", n}, {"ev", neval}});
    if (f["type"] == "a") throw HostError(4711);
    if (f["type"] == "b") throw std::logic_error("host failure 4711");
    throw HostPlainError{4711};
  }

  json sc;
  MPI_Comm comm;
  int rank, nranks;
  std::vector<KPoint> ks;          // local, in the order in which the host enumerates them
  std::vector<key_t_> allkeys;     // global
  int nb, ne, smear;
  double occ, T, kT;
  std::vector<double> u, phi;      // interaction; perturbation phases
  double amp{0}, freq{0};
  double drop_A{0};
  int drop_n{0}, nls{0};           // nls: evaluations since the last record
  std::vector<double> rho;
  double E{0}, mu{0};
  bool entered{false};
  memory_type mt{memory_type::host};
  // instrumentation
  int neval{0};
  bool fresh_fn{false};            // set_fn since last compute
  bool have_base{false}, have_w1{false}, newrec{false};
  int rec_seen{0};
  size_t json_off{0};
  int ops{0}, op_bad{0};
  std::string op_msg;
  int vec_bad{0};
  bool lib_running{false};
  int wmu_pending{0};
  int max_evals{200000};
  bool logops{false};
  std::string mubefore;
  double kappa{0};
  bool etaok{false};
  double frx_{0}, cgs_{0}, frp_{0}, zr_{0};
  double frt_{0}, cgst_{0}, frtp_{0}, sen_{0}, senp_{0};

  bool prev_ok{false}, rec_any{false};
  virtual Mat apply_P(KPoint& kp, const Mat& A) { return mul(kp.P, A); }
  bool stale_json{false};
  long stale_len{-1};
  double sw{0};                    // signed displacement (scripted host)

  ToyHost(const json& sc, MPI_Comm comm);
  ToyHost(const json& sc, MPI_Comm comm, int /* no problem set up */) : sc(sc), comm(comm)
  {
    PMPI_Comm_rank(comm, &rank);
    PMPI_Comm_size(comm, &nranks);
  }
  virtual ~ToyHost() {}
  void transform(std::vector<KPoint>& all, const json& q, const std::string& lc, const std::string& lh);

  KPoint& byKey(const key_t_& k)
  {
    for (auto& kp : ks)
      if (kp.key == k) return kp;
    throw std::runtime_error("harness: unknown key requested");
  }

  // --- library-facing interface
  void compute() override;
  int nelectrons() override
  {
    cb("ne");
    return ne;
  }
  int occupancy() override
  {
    cb("occ");
    return (int)occ;
  }
  double get_total_energy() override
  {
    poll();
    cb("etot");
    trace().emit({{"e", "etot"}, {"n", neval}});
    return E;
  }
  std::map<std::string, double> get_energy_components() override
  {
    poll();
    cb("comps");
    std::map<std::string, double> r = {{"etot", E}, {"half", E / 2}};
    // names are the host's business
    std::string n = sc.value("comp", "");
    if (n == "none") r.clear();
    if (n == "bytes") r["\xc5ngstr\xf6m \xff\xfe"] = 1.0, r[std::string("\0x", 2)] = 2.0;
    if (n == "text") r["quote \" backslash \\ newline \n tab \t"] = -0.0, r[""] = 1e-320, r[std::string(5000, 'x')] = NAN;
    return r;
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_hphi(memory_type m) override
  {
    poll();
    cb("hphi");
    if (m != memory_type::host) note("hphi requested in non-host memory");
    return std::make_shared<MatBase>(*this, 1);
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_sphi(memory_type m) override
  {
    poll();
    return std::make_shared<MatBase>(*this, 2);
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_C(memory_type m) override
  {
    poll();
    cb("getC");
    if (m != memory_type::host) note("C requested in non-host memory");
    return std::make_shared<MatBase>(*this, 0);
  }
  std::shared_ptr<nlcglib::VectorBaseZ> get_fn() override
  {
    poll();
    cb("getfn");
    return std::make_shared<VecBase>(*this, 0);
  }
  std::shared_ptr<nlcglib::VectorBaseZ> get_ek() override
  {
    poll();
    cb("getek");
    return std::make_shared<VecBase>(*this, 1);
  }
  std::shared_ptr<nlcglib::VectorBaseZ> get_gkvec_ekin() override
  {
    return std::make_shared<VecBase>(*this, 2);
  }
  std::shared_ptr<nlcglib::ScalarBaseZ> get_kpoint_weights() override
  {
    poll();
    cb("getwk");
    return std::make_shared<ScaBase>(*this);
  }
  void set_fn(const std::vector<std::pair<int, int>>& keys,
              const std::vector<std::vector<double>>& fn) override;
  void set_chemical_potential(double m) override
  {
    poll();
    cb("setmu");
    mu = m;
    double fe = 0;
    long double st = 0, dn = 0, nn = 0;
    bool ok = true;
    double esh = 0;  // largest shift of a pseudo-eigenvalue along the step
    for (auto& kp : ks)
      for (size_t j = 0; j < std::min(kp.eta.size(), kp.etaT.size()); ++j)
        esh = std::max(esh, std::abs(kp.etaT[j] - kp.eta[j]));
    for (auto& kp : ks) {
      if (kp.etaT.empty()) ok = false;
      if (ok)
        for (int j = 0; j < kp.nb; ++j) {
          long double x = (m - kp.etaT[j]) / (long double)kT;
          double d = std::abs(double(kp.fn.at(j) - occ * Smear::f(smear, x)));
          fe = std::max(fe, d == d ? d : 1e300);
          st += kp.w * occ * Smear::s(smear, x);
          dn += kp.w * occ * Smear::d(smear, x);
          nn += kp.w * kp.fn.at(j);
        }
    }
    trace().emit({{"e", "setmu"}, {"n", neval}, {"mu", D(m)}, {"fErr", D(ok ? fe : NAN)},
                  {"entT", D(ok ? double(-kT * st) : NAN)}, {"dN", D(ok ? double(dn) : NAN)}, {"N", D(double(nn))}, {"esh", D(esh)}});
    wmu_pending = 0;
  }
  double get_chemical_potential() override
  {
    poll();
    cb("getmu");
    return mu;
  }
  void print_info() const override
  {
    const_cast<ToyHost*>(this)->poll();
    const_cast<ToyHost*>(this)->cb("pinfo");
    trace().emit({{"e", "pinfo"}, {"n", neval}});
  }

  // --- own machinery
  void note(const std::string& m) { trace().emit({{"e", "note"}, {"msg", m}}); }
  double gsum(double x)
  {
    double r = 0;
    PMPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_SUM, comm);
    return r;
  }
  double gmax(double x)
  {
    if (std::isnan(x)) x = INFINITY;
    double r = 0;
    PMPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_MAX, comm);
    return r;
  }
  virtual void physics();
  virtual double perturb()
  {
    double e = 0;
    if (amp != 0)
      for (size_t g = 0; g < rho.size(); ++g) e += std::sin(freq * rho[g] + phi[g]);
    e *= amp;
    // a line search that keeps finding lower energies for the first drop_n trials
    if (drop_n > 0 && nls > 0 && nls <= drop_n) e -= drop_A * std::pow(6.0, nls);
    return e;
  }
  void poll();
  std::vector<double> levels(const KPoint& kp);
  double entropy_from_fn();
  double entropy_now() { return entropy_from_fn(); }
  double base_distance();
  // displacement t*z of X relative to Xb in the gauge of Xb; false if singular
  static bool displacement(const Mat& Xb, const Mat& S, const Mat& X, Mat& W);
  void relocate();
  bool buffers_intact(bool Ctoo);
};

struct ToyOp
{
  ToyHost& h;
  bool isS;
  ToyOp(ToyHost& h, bool isS) : h(h), isS(isS) {}
  virtual ~ToyOp() {}
  virtual void kernel(KPoint& kp, const Mat& in, Mat& out) const { out = isS ? mul(kp.S, in) : h.apply_P(kp, in); }
  void go(const key_t_& key,
          nlcglib::MatrixBaseZ::buffer_t& out,
          nlcglib::MatrixBaseZ::buffer_t& in) const
  {
    h.poll();
    h.cb(isS ? "S" : "P");
    h.ops++;
    auto bad = [&](const std::string& m) {
      h.op_bad++;
      if (h.op_msg.empty()) h.op_msg = std::string(isS ? "S" : "P") + ": " + m;
    };
    KPoint* kp = nullptr;
    for (auto& k : h.ks)
      if (k.key == key) kp = &k;
    if (!kp) {
      bad("operator called with a key that is not local");
      throw std::runtime_error("harness: operator called with foreign key");
    }
    if (in.memtype != memory_type::host || out.memtype != memory_type::host) bad("memory type");
    if (in.size[0] != kp->npw || out.size[0] != kp->npw || in.size[1] != out.size[1] || in.size[1] != kp->nb)
      bad("operand shape does not belong to this key");
    if (in.data == out.data) bad("aliased operands");
    int m = std::min(in.size[0], kp->npw), n = in.size[1];
    Mat A(kp->npw, n), B;
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) A(i, j) = in.data[size_t(i) * in.stride[0] + size_t(j) * in.stride[1]];
    kernel(*kp, A, B);
    int mo = std::min(out.size[0], kp->npw), no = std::min(out.size[1], n);
    for (int j = 0; j < no; ++j)
      for (int i = 0; i < mo; ++i) out.data[size_t(i) * out.stride[0] + size_t(j) * out.stride[1]] = B(i, j);
  }
  std::vector<key_t_> keys() const
  {
    std::vector<key_t_> r;
    for (auto& k : h.ks) r.push_back(k.key);
    return r;
  }
};
struct OpS : nlcglib::OverlapBase
{
  ToyOp& o;
  OpS(ToyOp& o) : o(o) {}
  void apply(const key_t& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override
  {
    o.go(k, out, in);
  }
  std::vector<key_t> get_keys() const override { return o.keys(); }
};
struct OpP : nlcglib::UltrasoftPrecondBase
{
  ToyOp& o;
  OpP(ToyOp& o) : o(o) {}
  void apply(const key_t& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override
  {
    o.go(k, out, in);
  }
  std::vector<key_t> get_keys() const override { return o.keys(); }
};

}  // namespace vh
