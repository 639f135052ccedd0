// Small operations of the library's internal headers, driven by cases generated from the specification.
// kern CASES.json OUTDIR ; every case is a list of operations, one trace line per operation and rank.
#pragma once
#include <mpi.h>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

namespace kern {
using json = nlohmann::json;
typedef void (*fn_t)(const json& in, json& out);
inline std::map<std::string, fn_t>& ops()
{
  static std::map<std::string, fn_t> m;
  return m;
}
struct Reg
{
  Reg(const char* n, fn_t f) { ops()[n] = f; }
};
inline int rank()
{
  int r;
  PMPI_Comm_rank(MPI_COMM_WORLD, &r);
  return r;
}
// communicator named in a case
inline MPI_Comm comm_of(const std::string& s)
{
  if (s == "self") return MPI_COMM_SELF;
  if (s == "null") return MPI_COMM_NULL;
  if (s == "rev") {  // all ranks in reversed order
    static MPI_Comm c = MPI_COMM_NULL;
    if (c == MPI_COMM_NULL) PMPI_Comm_split(MPI_COMM_WORLD, 0, -rank(), &c);
    return c;
  }
  return MPI_COMM_WORLD;
}
// digits of agreement: -log10 of a relative deviation, 0..16
int digits(double x);
}  // namespace kern
