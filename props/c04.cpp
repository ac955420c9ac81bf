// C04: multiplication is race-free, memory-safe and writes only y.
#include "util.h"
using namespace sim; using namespace api;
static void c04() {
    int fmt = pick_fmt(0, ALL_FMTS); random_schedule_config(); set_workers(any_workers());
    Built b = make_built(fmt, gen_scaled(fmt, rarely(400, 5000), rarely(900, 9000)), cfg.workers);
    if (fmt == CSBR_C2 || fmt == CSBR_C3 || (fmt >= CGBR2_16)) b.spec.force_balanced = (int)choose(2);
    cfg.preempt = false; guest([&] { b.m = build_any(b.spec); }); cfg.preempt = true;
    size_t matrix_end = gmark();                              // what the library keeps from here on (scratch, caches) is its own business
    const Matrix &m = b.src; uint32_t reps = 1 + choose(2);
    for (uint32_t k = 0; k < reps; k++) {
        random_schedule_config(); set_workers(any_workers());
        Rng g(seed32()); uint32_t pad = choose(3) * 37;       // y may be the middle of a longer array
        std::vector<double> x(m.cols), y0(m.rows + 2 * pad);
        for (auto &v : x) v = (double)(int)g.below(1801) - 900; for (auto &v : y0) v = (double)(int)g.below(2001) - 1000;
        Vec gx(b.dbl, m.cols), gy(b.dbl, m.rows + 2 * pad);
        for (uint32_t i = 0; i < m.cols; i++) gx.set(i, x[i]);
        for (uint32_t i = 0; i < y0.size(); i++) gy.set(i, y0[i]);
        size_t es = b.dbl ? 8 : 4; char *y = (char *)gy.p + pad * es;
        uint64_t before = ghash_upto(matrix_end, nullptr, 0);
        cfg.race = RACE_ALL;
        bool serial = choose(6) == 5;
        if (serial) guest([&] { b.m->spmv_serial(gx.p, y); }); else guest([&] { b.m->spmv(gx.p, y); });
        cfg.race = RACE_OFF;
        {
            for (uint32_t i = 0; i < y0.size(); i++) if ((i < pad || i >= pad + m.rows) && gy.get(i) != y0[i]) violate("stray-write", "%s changed memory at y[%ld], outside its %u rows", fmt_name[fmt], (long)i - (long)pad, m.rows);
            for (uint32_t i = 0; i < m.cols; i++) if (gx.get(i) != x[i]) violate("stray-write", "%s changed x[%u]", fmt_name[fmt], i);
        }
        if (ghash_upto(matrix_end, nullptr, 0) != before) violate("stray-write", "%s changed the matrix while multiplying", fmt_name[fmt]);
        gx.free_(); gy.free_();
    }
}
static Register r4({"C04", c04, "a run is one matrix of one format multiplied once or twice with every memory access of the library checked for bounds, lifetime and ordering; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "all formats and multiplication kernels", "OpenMP runtime, memory allocator"});
