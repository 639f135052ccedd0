// nrun SCENARIOS.json OUTDIR : runs a list of scenarios against the real library.
// One trace file per scenario and rank: OUTDIR/<id>.r<rank>.ndjson ; work directory OUTDIR/<id>.d
#include <dirent.h>
#include <errno.h>
#include <malloc.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <sys/stat.h>
#include <atomic>
#include <unistd.h>
#include <Kokkos_Core.hpp>
#include <iostream>
#include "script.hpp"
#include "toy.hpp"

using namespace vh;
using nlcglib::smearing_type;

// ------------------------------------------------ MPI interposition (PMPI) --
static bool g_inlib = false;
static int g_jitter = 0;
static std::mt19937_64 g_jrng;
static int g_ncoll = 0;
static bool g_logcoll = false;
static void jitter()
{
  if (g_jitter > 0) usleep(g_jrng() % g_jitter);
}
static void coll(const char* op, int count, MPI_Datatype t, MPI_Comm c, const char* extra = "")
{
  if (!g_inlib) return;
  ++g_ncoll;
  int sz = 0, cs = 0;
  if (t != MPI_DATATYPE_NULL) PMPI_Type_size(t, &sz);
  if (c != MPI_COMM_NULL) PMPI_Comm_size(c, &cs);
  if (g_logcoll && cs > 1) {
    const char* cl = "k";
    if (g_host) {
      int cmp = MPI_UNEQUAL;
      PMPI_Comm_compare(c, g_host->comm, &cmp);
      cl = cmp == MPI_IDENT ? "k" : cmp == MPI_CONGRUENT ? "kdup" : "foreign";
    }
    trace().emit({{"e", "coll"}, {"op", op}, {"cnt", count}, {"tsz", sz}, {"comm", cs}, {"cls", cl}, {"x", extra},
                  {"ev", g_host ? g_host->neval : 0}});
  }
  jitter();
}
extern "C" {
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
  coll("allreduce", n, t, c, o == MPI_SUM ? "sum" : o == MPI_MAX ? "max" : o == MPI_MIN ? "min" : "other");
  return PMPI_Allreduce(s, r, n, t, o, c);
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  coll("allgather", rn, rt, c);
  return PMPI_Allgather(s, sn, st, r, rn, rt, c);
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm c)
{
  int cs = 0, tot = 0;
  std::string ex;
  PMPI_Comm_size(c, &cs);
  for (int i = 0; i < cs; ++i) {
    tot += rn[i];
    ex += std::to_string(rn[i]) + "@" + std::to_string(d[i]) + " ";
  }
  coll("allgatherv", tot, rt, c, ex.c_str());
  return PMPI_Allgatherv(s, sn, st, r, rn, d, rt, c);
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  coll("bcast", n, t, c, std::to_string(root).c_str());
  return PMPI_Bcast(b, n, t, root, c);
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
  coll("reduce", n, t, c, std::to_string(root).c_str());
  return PMPI_Reduce(s, r, n, t, o, root, c);
}
int MPI_Barrier(MPI_Comm c)
{
  coll("barrier", 0, MPI_DATATYPE_NULL, c);
  return PMPI_Barrier(c);
}
}

// resources the library holds: MPI datatypes, communicators, groups, operations, requests made and not released
static std::map<std::string, long> g_held;
static std::map<std::string, long> g_made;
static void res(const char* kind, int n)
{
  if (!g_inlib) return;
  g_held[kind] += n;
  if (n > 0) ++g_made[kind];
}
extern "C" {
int MPI_Type_create_struct(int n, const int* b, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* r)
{
  res("type", 1);
  return PMPI_Type_create_struct(n, b, d, t, r);
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* r)
{
  res("type", 1);
  return PMPI_Type_contiguous(n, t, r);
}
int MPI_Type_vector(int n, int b, int s, MPI_Datatype t, MPI_Datatype* r)
{
  res("type", 1);
  return PMPI_Type_vector(n, b, s, t, r);
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* r)
{
  res("type", 1);
  return PMPI_Type_create_resized(t, lb, ext, r);
}
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype* r)
{
  res("type", 1);
  return PMPI_Type_dup(t, r);
}
int MPI_Type_free(MPI_Datatype* t)
{
  res("type", -1);
  return PMPI_Type_free(t);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* r)
{
  res("comm", 1);
  return PMPI_Comm_dup(c, r);
}
int MPI_Comm_split(MPI_Comm c, int a, int b, MPI_Comm* r)
{
  res("comm", 1);
  return PMPI_Comm_split(c, a, b, r);
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* r)
{
  res("comm", 1);
  return PMPI_Comm_create(c, g, r);
}
int MPI_Comm_free(MPI_Comm* c)
{
  res("comm", -1);
  return PMPI_Comm_free(c);
}
int MPI_Comm_group(MPI_Comm c, MPI_Group* g)
{
  res("group", 1);
  return PMPI_Comm_group(c, g);
}
int MPI_Group_free(MPI_Group* g)
{
  res("group", -1);
  return PMPI_Group_free(g);
}
int MPI_Op_create(MPI_User_function* f, int c, MPI_Op* o)
{
  res("op", 1);
  return PMPI_Op_create(f, c, o);
}
int MPI_Op_free(MPI_Op* o)
{
  res("op", -1);
  return PMPI_Op_free(o);
}
}
static std::atomic<long> g_blocks{0}, g_bytes{0};  // memory in use in this process
static int entries(const char* d)
{
  int n = 0;
  DIR* p = opendir(d);
  while (readdir(p)) ++n;
  closedir(p);
  return n;
}
// settings of the process a library has no business changing
static std::string settings()
{
  std::ostringstream s;
  char b[4096];
  s << "rounding " << fegetround() << ", traps " << fegetexcept() << ", stdout " << std::cout.precision() << "/" << (long)std::cout.flags() << "/"
    << std::cout.width() << "/" << (int)std::cout.fill() << "/" << (long)std::cout.rdbuf() << "/" << (int)std::cout.rdstate() << ", stderr "
    << std::cerr.precision() << "/" << (long)std::cerr.flags() << ", locale " << setlocale(LC_ALL, nullptr) << "/" << std::locale().name()
    << ", directory " << (getcwd(b, sizeof b) ? b : "?");
  mode_t m = umask(0);
  umask(m);
  s << ", umask " << m << ", handlers";
  for (int i : {SIGINT, SIGTERM, SIGFPE, SIGSEGV, SIGABRT, SIGALRM, SIGPIPE, SIGUSR1}) {
    struct sigaction a;
    sigaction(i, nullptr, &a);
    s << " " << (long)a.sa_handler;
  }
  s << ", terminate " << (long)std::get_terminate() << ", environment";
  uint64_t h = 1469598103934665603ull;
  for (char** e = environ; *e; ++e)
    for (char* c = *e; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  s << " " << h;
  return s.str();
}
static json resources()
{
  return {{"e", "res"}, {"heap", g_blocks.load()}, {"bytes", g_bytes.load()}, {"fd", entries("/proc/self/fd")},
          {"thread", entries("/proc/self/task")}, {"type", g_held["type"]}, {"comm", g_held["comm"]},
          {"group", g_held["group"]}, {"op", g_held["op"]}, {"handle", nlive}, {"settings", settings()}};
}

// memory handed to the library comes with a pattern (0xFF: NaN), so that reading uninitialised memory shows
static int g_heap = -1;
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void counted(void* p, int sgn)
{
  g_blocks.fetch_add(sgn, std::memory_order_relaxed);
  g_bytes.fetch_add(sgn * (long)malloc_usable_size(p), std::memory_order_relaxed);
}
static void* given(void* p, size_t n)
{
  if (p) counted(p, 1);
  if (p && g_inlib && g_heap >= 0 && n <= (1u << 20)) memset(p, g_heap, n);
  return p;
}
void* malloc(size_t n) { return given(__libc_malloc(n), n); }
void* calloc(size_t n, size_t m)
{
  void* p = __libc_calloc(n, m);
  if (p) counted(p, 1);
  return p;
}
void* realloc(void* q, size_t n)
{
  long old = q ? (long)malloc_usable_size(q) : 0;
  void* p = __libc_realloc(q, n);
  if (q && (p || n == 0)) {
    g_blocks.fetch_sub(1, std::memory_order_relaxed);
    g_bytes.fetch_sub(old, std::memory_order_relaxed);
  }
  if (p) counted(p, 1);
  return p;
}
void* memalign(size_t a, size_t n) { return given(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return given(__libc_memalign(a, n), n); }
int posix_memalign(void** r, size_t a, size_t n)
{
  void* p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  *r = given(p, n);
  return 0;
}
void free(void* p)
{
  if (p) counted(p, -1);
  __libc_free(p);
}
}

static void on_alarm(int)
{
  const char m[] = "{\"e\":\"timeout\"}\n";
  if (trace().f) {
    if (write(fileno(trace().f), m, sizeof(m) - 1)) {}
  }
  _exit(97);
}
static void on_crash(int s)
{
  char m[64];
  int n = snprintf(m, sizeof m, "{\"e\":\"crash\",\"sig\":%d}\n", s);
  if (trace().f) {
    if (write(fileno(trace().f), m, n)) {}
  }
  _exit(96);
}

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

template <class H>
static json host_state(H& h)
{
  json r;
  bool c_same = true, fn_same = true;
  double fdiff = 0;
  uint64_t hash = 1469598103934665603ull;
  int stray = 0;
  for (auto& kp : h.ks) {
    c_same = c_same && kp.C.same();
    stray += kp.C.stray();
    for (int j = 0; j < kp.nb; ++j) {
      double d = std::abs(kp.fn.at(j) - kp.fcur[j]);
      fdiff = std::max(fdiff, d == d ? d : 1e300);
    }
    Mat X = kp.C.get();
    hash = fnv(X.a.data(), X.a.size() * sizeof(cplx), hash);
    for (int j = 0; j < kp.nb; ++j) hash = fnv(&kp.fn.at(j), sizeof(double), hash);
  }
  r["cSame"] = c_same;       // coefficients are the ones last evaluated
  r["fDiff"] = D(fdiff);     // occupations vs the ones last evaluated
  r["intact"] = h.buffers_intact(false);
  r["stray"] = stray;
  r["hash"] = std::to_string(hash);
  return r;
}

// run one library call; returns json for ret / exc
template <class FN>
static json guarded(FN&& fn)
{
  json r;
  g_inlib = true;
  try {
    nlcglib::nlcg_info i = fn();
    r = {{"e", "ret"}, {"F", D(i.F)}, {"S", D(i.S)}, {"tol", D(i.tolerance)}, {"iter", i.iter},
         {"conv", *reinterpret_cast<unsigned char*>(&i.converged) == 1},
         {"convraw", (int)*reinterpret_cast<unsigned char*>(&i.converged)}};
  } catch (HostError& ex) {
    r = {{"e", "exc"}, {"what", ex.what()}, {"type", "a"}, {"code", ex.code}};
  } catch (HostPlainError& ex) {
    r = {{"e", "exc"}, {"what", "host failure"}, {"type", "c"}, {"code", ex.code}};
  } catch (std::exception& ex) {
    bool mine = std::string(ex.what()) == "host failure 4711" && typeid(ex) == typeid(std::logic_error);
    r = {{"e", "exc"}, {"what", ex.what()}, {"type", mine ? "b" : "other"}, {"code", mine ? 4711 : 0}};
  } catch (...) {
    r = {{"e", "exc"}, {"what", "unknown exception"}};
  }
  g_inlib = false;
  return r;
}

// overwrite a chunk of stack so that uninitialised result fields are visible
static void __attribute__((noinline)) dirty_stack(unsigned char v)
{
  volatile unsigned char b[65536];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = v;
}

static nlcglib::nlcg_info dispatch(const std::string& api, nlcglib::EnergyBase& h, nlcglib::UltrasoftPrecondBase& P,
                                   nlcglib::OverlapBase& S, smearing_type sm, double T, double tol, double kappa,
                                   double tau, int maxiter, int restart)
{
  using namespace nlcglib;
  if (api == "us_cpu") return nlcg_us_cpu(h, P, S, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "us_device") return nlcg_us_device(h, P, S, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "us_device_cpu") return nlcg_us_device_cpu(h, P, S, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "us_cpu_device") return nlcg_us_cpu_device(h, P, S, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "mvp2_cpu") return nlcg_mvp2_cpu(h, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "mvp2_device") return nlcg_mvp2_device(h, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "mvp2_cpu_device") return nlcg_mvp2_cpu_device(h, sm, T, tol, kappa, tau, maxiter, restart);
  if (api == "mvp2_device_cpu") return nlcg_mvp2_device_cpu(h, sm, T, tol, kappa, tau, maxiter, restart);
  throw std::runtime_error("harness: unknown api " + api);
}

static std::vector<std::string> listdir()
{
  std::vector<std::string> r;
  DIR* d = opendir(".");
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") r.push_back(n);
  }
  closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}

// the world of a call: spec/Sinks.tla
struct Decimals : std::numpunct<char>
{
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

static void put_file(const char* name, const std::string& st)
{
  if (st == "stale") std::ofstream(name) << "{\"type\":\"cg_iteration\",\"step\":77}left over\nfrom an earlier run\n";
  if (st == "dir") {
    mkdir(name, 0777);
    std::ofstream(std::string(name) + "/x") << "x";
  }
  if (st == "full" && symlink("/dev/full", name)) {}
  if (st == "dangling" && symlink("nowhere/x", name)) {}
}

static void enter_world(const json& w, int grank)
{
  if (w.value("cwd", false)) {
    std::string d = "gone" + std::to_string(grank);
    if (mkdir(d.c_str(), 0777) || chdir(d.c_str()) || rmdir(("../" + d).c_str())) throw std::runtime_error("harness: world");
  } else if (grank == 0) {
    put_file("nlcg.json", w.value("json", "absent"));
    put_file("nlcg.out", w.value("out", "absent"));
  }
  std::string c = w.value("console", "file");
  if (c == "full") {
    int fd = open("/dev/full", O_WRONLY);
    if (fd < 0) throw std::runtime_error("harness: no /dev/full");
    dup2(fd, 1);
    close(fd);
  }
  if (c == "bad") std::cout.setstate(std::ios::badbit);
  if (c == "format") {
    std::cout << std::hex << std::scientific << std::showpos << std::uppercase << std::setprecision(1) << std::setfill('*') << std::boolalpha;
    std::cout.width(30);
  }
  if (w.value("locale", false)) std::locale::global(std::locale(std::locale::classic(), new Decimals));
}

static void leave_world()
{
  std::locale::global(std::locale::classic());
  std::cout.clear();
  std::cout.copyfmt(std::ios(nullptr));
  std::cout.clear();
}

int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  int rank, nranks;
  PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
  PMPI_Comm_size(MPI_COMM_WORLD, &nranks);
  if (argc < 3) return 2;
  nlcglib::initialize();
  std::ifstream in(argv[1]);
  json all;
  in >> all;
  std::string out = argv[2];
  char cwd0[4096];
  if (!getcwd(cwd0, sizeof cwd0)) return 2;
  if (out[0] != '/') out = std::string(cwd0) + "/" + out;
  signal(SIGALRM, on_alarm);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_crash);
  int saved = dup(1);
  for (auto& sc : all) {
    std::string id = sc["id"].get<std::string>();
    std::string dir = out + "/" + id + ".d";
    if (rank == 0) mkdir(dir.c_str(), 0777);
    PMPI_Barrier(MPI_COMM_WORLD);
    // groups of ranks with a problem of their own each
    MPI_Comm comm = MPI_COMM_WORLD;
    json gsc = sc;
    int grank = rank;
    if (sc.contains("color")) {
      int color = sc["color"][rank].get<int>();
      PMPI_Comm_split(MPI_COMM_WORLD, color, rank, &comm);
      PMPI_Comm_rank(comm, &grank);
      for (auto& kv : sc["groups"][color].items()) gsc[kv.key()] = kv.value();
      dir += "/g" + std::to_string(color);
      if (grank == 0) mkdir(dir.c_str(), 0777);
      PMPI_Barrier(MPI_COMM_WORLD);
    }
    if (chdir(dir.c_str())) return 2;
    trace().open(out + "/" + id + ".r" + std::to_string(rank) + ".ndjson");
    trace().emit({{"e", "begin"}, {"id", id}, {"rank", rank}, {"nranks", nranks}});
    fflush(stdout);
    std::cout.flush();
    int fd = open(("stdout." + std::to_string(rank)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(fd, 1);
    close(fd);
    alarm(sc.value("timeout", 30));
    g_jitter = sc.value("jitter", 0);
    g_jrng.seed(sc.value("jseed", 1) * 1000 + rank);
    g_logcoll = sc.value("logcoll", false);
    if (sc.contains("stale") && grank == 0) {
      std::ofstream("nlcg.json") << sc["stale"].get<std::string>();
    }
    if (sc.contains("world")) enter_world(sc["world"], grank);
    on_eval = nullptr;
    if (sc.value("resEval", false)) on_eval = [] {
      json r = resources();
      r["e"] = "resi";
      trace().emit(r);
    };
    PMPI_Barrier(MPI_COMM_WORLD);
    try {
      struct Slot
      {
        std::unique_ptr<ToyHost> hp;
        std::unique_ptr<ToyOp> os, op;
      };
      std::map<std::string, Slot> slots;
      auto mk = [&](const json& c) {
        json m = gsc;
        for (auto& kv : c.items()) m[kv.key()] = kv.value();
        auto& sl = slots[c.value("host", "")];
        auto& hp = sl.hp;
        auto& os = sl.os;
        auto& op = sl.op;
        if (m.value("kind", "toy") == "script") {
          hp = std::make_unique<ScriptHost>(m, comm);
          os = std::make_unique<ScriptOp>(*hp, true);
          op = std::make_unique<ScriptOp>(*hp, false);
        } else {
          hp = std::make_unique<ToyHost>(m, comm);
          os = std::make_unique<ToyOp>(*hp, true);
          op = std::make_unique<ToyOp>(*hp, false);
        }
      };
      std::vector<json> calls;
      if (gsc.contains("calls"))
        for (auto& c : gsc["calls"]) calls.push_back(c);
      else
        calls.push_back(json::object());
      int ic = 0;
      for (auto& c : calls) {
        json m = gsc;
        for (auto& kv : c.items()) m[kv.key()] = kv.value();
        auto& sl = slots[c.value("host", "")];
        if (!sl.hp || c.value("newhost", !c.contains("host"))) mk(c);
        ToyHost& h = *sl.hp;
        g_host = &h;
        OpS S(*sl.os);
        OpP P(*sl.op);
        std::string api = m.value("api", "us_cpu");
        int sm = m.value("smearArg", m.value("smear", 0));
        double T = m.value("T", 3000.0), tol = m.value("tol", 1e-9), kappa = m.value("kappa", 0.3),
               tau = m.value("tau", 0.1);
        int maxiter = m.value("maxiter", 30), restart = m.value("restart", 10);
        h.T = T;
        h.kT = T * KB;
        h.kappa = kappa;
        h.etaok = false;
        h.smear = sm;
        h.json_off = 0;
        h.rec_seen = 0;
        h.newrec = false;
        h.have_w1 = false;
        h.prev_ok = false;
        h.rec_any = false;
        h.stale_len = -1;
        h.neval = 0;
        h.cbs.clear();
        h.failed = false;
        h.stale_json = (grank == 0);
        trace().emit({{"e", "call"}, {"i", ic}, {"host", c.value("host", "")}, {"api", api}, {"smear", sm}, {"T", D(T)}, {"tol", D(tol)},
                      {"kappa", D(kappa)}, {"tau", D(tau)}, {"maxiter", maxiter}, {"restart", restart},
                      {"ne", h.ne}, {"occ", D(h.occ)}, {"nb", h.nb}, {"nkeys", (int)h.allkeys.size()},
                      {"E0", D(h.E)}});
        std::string set0 = settings();
        h.strict = m.value("strict", false);
        h.caller = std::this_thread::get_id();
        h.lib_running = true;
        int v = m.value("dirty", 0xA5);
        dirty_stack((unsigned char)v);
        g_heap = m.value("heap", 0xFF);
        json r = guarded([&] {
          return dispatch(api, h, P, S, (smearing_type)sm, T, tol, kappa, tau, maxiter, restart);
        });
        h.poll();
        h.lib_running = false;
        int nr = h.newrec ? 1 : 0;
        PMPI_Bcast(&nr, 1, MPI_INT, 0, comm);
        if (nr)
          for (auto& kp : h.ks) kp.Xbase = kp.Xcur;
        r["i"] = ic;
        r["n"] = h.neval;
        r["hostE"] = D(h.E);
        r["hostMu"] = D(h.mu);
        r["entF"] = D(h.entropy_now());
        r["staleLeft"] = grank == 0 && h.stale_json && access("nlcg.json", F_OK) == 0;
        r["baseDist"] = D(h.base_distance());
        r["wantMu"] = h.wmu_pending == 0;
        r["ops"] = h.ops;
        r["opBad"] = h.op_bad;
        r["opMsg"] = h.op_msg;
        r["cbs"] = h.cbs;
        r["coll"] = g_ncoll;
        r["st"] = host_state(h);
        trace().emit(r);
        if (sc.value("ground", false)) {
          json x = {{"e", "levels"}, {"k", json::array()}};
          double e2 = 0;
          for (size_t g = 0; g < h.u.size(); ++g) e2 += 0.5 * h.u[g] * h.rho[g] * h.rho[g];
          x["half"] = D(e2);
          for (auto& kp : h.ks) {
            std::vector<std::string> l;
            for (double v : h.levels(kp)) l.push_back(D(v));
            x["k"].push_back({{"w", D(kp.w)}, {"lev", l}});
          }
          trace().emit(x);
        }
        if (sc.value("res", false)) {
          json x = resources();
          x["kept"] = x["settings"] == set0;
          if (!x["kept"].get<bool>()) x["before"] = set0;
          trace().emit(x);
        }
        ++ic;
        if (sc.value("poststate", true)) {
          // full host state for cross-run comparison
          json ps = {{"e", "state"}, {"i", ic - 1}};
          for (auto& kp : h.ks) {
            json k;
            k["key"] = {kp.key.first, kp.key.second};
            k["orig"] = kp.orig;
            Mat X = kp.C.get();
            Mat Pm = mul(X, herm(X));  // gauge invariant (projector)
            std::vector<std::string> pj, f;
            for (auto& x : Pm.a) pj.push_back(D(x.real())), pj.push_back(D(x.imag()));
            for (int j = 0; j < kp.nb; ++j) f.push_back(D(kp.fn.at(j)));
            k["P"] = pj;
            k["f"] = f;
            ps["k"].push_back(k);
          }
          trace().emit(ps);
        }
      }
      json fin = {{"e", "end"}};
      PMPI_Barrier(MPI_COMM_WORLD);
      if (!sc.contains("world")) fin["files"] = listdir();
      trace().emit(fin);
    } catch (std::exception& ex) {
      trace().emit({{"e", "harness-error"}, {"what", ex.what()}});
    }
    alarm(0);
    std::cout.flush();
    fflush(stdout);
    dup2(saved, 1);
    if (sc.contains("world")) leave_world();
    if (chdir(cwd0)) return 2;
    if (trace().f) fclose(trace().f);
    trace().f = nullptr;
    g_host = nullptr;
    PMPI_Barrier(MPI_COMM_WORLD);
    if (comm != MPI_COMM_WORLD) PMPI_Comm_free(&comm);
  }
  nlcglib::finalize();
  MPI_Finalize();
  return 0;
}
