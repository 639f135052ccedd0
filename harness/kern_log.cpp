#include "kern_logcmd.hpp"
static void log_(const json& in, json& out)
{
  Logger lg;
  run(lg, in);
}
static Reg l1("log", log_);
