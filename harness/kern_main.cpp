#include "kern.hpp"
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <nlcglib.hpp>

using namespace kern;

static FILE* g_f = nullptr;
static void emit(const json& j)
{
  std::string s = j.dump() + "\n";
  fwrite(s.data(), 1, s.size(), g_f);
  fflush(g_f);
}
static void on_alarm(int)
{
  const char m[] = "{\"e\":\"timeout\"}\n";
  if (g_f && write(fileno(g_f), m, sizeof(m) - 1)) {}
  _exit(97);
}
static void on_crash(int s)
{
  char m[64];
  int n = snprintf(m, sizeof m, "{\"e\":\"crash\",\"sig\":%d}\n", s);
  if (g_f && write(fileno(g_f), m, n)) {}
  _exit(96);
}
// fresh memory comes with a pattern
static bool g_inlib = false;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n)
{
  void* p = __libc_malloc(n);
  if (p && g_inlib && n <= (1u << 20)) memset(p, 0x41, n);
  return p;
}

int kern::digits(double x)
{
  if (!(x == x)) return 0;
  if (x <= 1e-16) return 16;
  int d = (int)std::floor(-std::log10(x));
  return d < 0 ? 0 : d > 16 ? 16 : d;
}

int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  nlcglib::initialize();
  std::ifstream in(argv[1]);
  json all = json::parse(in);
  std::string out = argv[2];
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_crash);
  signal(SIGALRM, on_alarm);
  int r = rank();
  for (auto& sc : all) {
    std::string id = sc["id"];
    g_f = fopen((out + "/" + id + ".r" + std::to_string(r) + ".ndjson").c_str(), "w");
    std::string wd = out + "/" + id + ".d";
    if (r == 0) mkdir(wd.c_str(), 0755);
    PMPI_Barrier(MPI_COMM_WORLD);
    char cwd0[4096];
    if (!getcwd(cwd0, sizeof cwd0) || chdir(wd.c_str())) return 2;
    int saved = dup(1);
    FILE* so = freopen(("stdout.r" + std::to_string(r)).c_str(), "w", stdout);
    (void)so;
    alarm(sc.value("timeout", 60));
    int i = 0;
    for (auto& op : sc["ops"]) {
      json o = {{"e", "op"}, {"i", i++}, {"op", op["op"]}};
      auto it = ops().find(op["op"].get<std::string>());
      if (it == ops().end()) {
        o["unsupported"] = true;
      } else {
        g_inlib = true;
        try {
          it->second(op, o);
        } catch (std::exception& ex) {
          o["exc"] = ex.what();
        }
        g_inlib = false;
      }
      emit(o);
    }
    alarm(0);
    std::cout.flush();
    fflush(stdout);
    emit({{"e", "end"}});
    dup2(saved, 1);
    close(saved);
    if (chdir(cwd0)) return 2;
    fclose(g_f);
    g_f = nullptr;
    PMPI_Barrier(MPI_COMM_WORLD);
  }
  nlcglib::finalize();
  MPI_Finalize();
  return 0;
}
