// Running the command line tools inside the simulator.
#pragma once
#include "iou.h"
int tool_convert_main(int, char **); int tool_convert_blocked_main(int, char **); int tool_expanded_main(int, char **); int tool_permute_main(int, char **);
int tool_ipermute_main(int, char **); int tool_sort_main(int, char **); int tool_prepare_main(int, char **);
extern "C" { int tool_double2float_main(int, char **); int tool_one2zero_main(int, char **); }
struct Exit { sim::Result r; int status = 0; bool ended = false; };     // ended: the process ended by itself, status is what its parent sees
template <class F> inline Exit run_tool(F main_fn, const std::vector<std::string> &args) {
    std::vector<char *> av; for (auto &a : args) { char *p = (char *)sim::galloc(a.size() + 1); memcpy(p, a.c_str(), a.size() + 1); av.push_back(p); }
    char **argv = (char **)sim::galloc((av.size() + 1) * sizeof(char *)); for (size_t i = 0; i < av.size(); i++) argv[i] = av[i]; argv[av.size()] = nullptr;
    int rc = 0; sim::statics_reset(); Exit e; e.r = sim::guarded([&] { sim::guest([&] { rc = main_fn((int)args.size(), argv); }); });
    if (e.r.outcome == sim::RETURNED) { e.status = rc & 255; e.ended = true; } else if (e.r.outcome == sim::EXITED) { e.status = e.r.code & 255; e.ended = true; } else e.status = 134;
    if (e.ended) sim::flush_all(); 
    sim::close_all_silently(); return e;
}
