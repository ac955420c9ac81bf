// C01: y += A*x for every row-oriented format under every schedule.
#include "util.h"
using namespace sim; using namespace api;
static void c01() {
    int fmt = pick_fmt(0, ROW_FMTS); set_workers(any_workers());
    Matrix m; if (choose(80) == 79) { m.rows = choose(2) ? range(1, 40) : 0; m.cols = m.rows && choose(2) ? 0 : range(1, 40); probe("no_rows_or_no_columns"); } else m = gen_scaled(fmt, rarely(1200, 9000), rarely(1500, 12000));
    Built b = make_built(fmt, m, cfg.workers);
    history(b); cfg.preempt = false; guest([&] { b.m = build_row(b.spec); }); cfg.preempt = true;
    multiply_many(b, "wrong-result");
}
static Register r1({"C01", c01, "a run is one matrix multiplied one to three times; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "row-format constructors, spmv() and spmv_serial(), parallel stable sort", "OpenMP runtime, memory allocator"});
