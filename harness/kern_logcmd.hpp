#pragma once
#include "kern.hpp"
#include <sstream>
#include <utils/logger.hpp>
using namespace kern;
using namespace nlcglib;
static void run(Logger& lg, const json& in)
{
  for (auto& c : in["cmds"]) {
    std::string k = c[0];
    auto s = [&](int i) { return c[i].get<std::string>(); };
    if (k == "file") lg.attach_file(s(1), s(2));
    else if (k == "master") lg.attach_file_master(s(1));
    else if (k == "out") lg << s(1);
    else if (k == "out2") lg << s(1) << c[2].get<int>() << "\n";
    else if (k == "cout") lg << TO_STDOUT << s(1);
    else if (k == "cout2") lg << TO_STDOUT << s(1) << c[2].get<int>() << "\n";
    else if (k == "push") lg.push_prefix(s(1));
    else if (k == "pop") lg.pop_prefix();
    else if (k == "clear") lg.clear_prefix();
    else if (k == "detach") lg.detach_stdout();
    else if (k == "attach") lg.attach_stdout();
    else if (k == "flush") lg.flush();
    else throw std::logic_error("unknown command");
  }
  lg.flush();
}
