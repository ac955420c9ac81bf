// C02: y += A*x for every blocked format, block-rows as the unit of parallelism.
#include "util.h"
using namespace sim; using namespace api;
static void c02() {
    int fmt = pick_fmt(ROW_FMTS, ALL_FMTS); set_workers(any_workers());
    Built b = make_built(fmt, gen_scaled(fmt, rarely(600, 5000), rarely(1500, 12000)), cfg.workers);
    b.spec.force_balanced = 1;
    history(b); cfg.preempt = false; guest([&] { b.m = build_blk(b.spec); }); cfg.preempt = true;
    multiply_many(b, "wrong-result");
}
static Register r2({"C02", c02, "a run is one matrix multiplied one to three times; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "blocked-format constructors, block storage classes, balanced multiplication", "OpenMP runtime, memory allocator"});
