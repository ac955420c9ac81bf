// C28: repeated operations give back what they take.
#include "util.h"
#include "iou.h"
#include "../guest/sort.h"
using namespace sim; using namespace api;
// Live blocks grow by at most `slack` over `reps` rounds: a per-thread or per-process cache is fine, one block per round is not.
template <class F> static void repeat(const char *what, uint32_t warm, uint32_t reps, uint32_t slack, F round) {
    for (uint32_t i = 0; i < warm; i++) round();
    size_t n = glive_count(); for (uint32_t i = 0; i < reps; i++) round();
    size_t m = glive_count(); if (m > n + slack) violate("memory-growth", "%s: %zu more blocks are held after %u repetitions", what, m - n, reps);
}
// Blocks that releasing leaves to the caller: the offsets it gave to a generalised blocked matrix.
static uint32_t callers_share(int f, int mode) { return f >= CGBR16 && mode == BY_OFFSETS ? 2 : 0; }
static int source_kind(int f) { switch (f) { case CSR_C3: case CSR2_C3: case CSWR8_C3: case CRCSR_C3: case COO1_M: case COO2: case DENSE_C3: case DENSE_SER: case DENSE_PAR: case CSBR_C3: case CSBR2_C3: case CGBR16: case CGBR8: case CGBR2_16: case CGBR2_8: case CGBR2_FAC: return 3; default: return 2; } }
static void c28() {
    random_schedule_config(); static const int ws[] = {4, 1, 2, 3}; set_workers(ws[choose(4)]); int mode = choose(5); bool tiny = cfg.skip_mean < 16; if (choose(2)) cfg.preempt = false;
    if (mode <= 1) {
        int fmt = pick_fmt(0, ALL_FMTS); Built b = make_built(fmt, gen_for_format(fmt, 300, tiny ? 60 : 200), cfg.workers);
        if (fmt == CSBR_C2 || fmt == CSBR_C3 || fmt >= CGBR2_16) b.spec.force_balanced = (int)choose(2);
        guest([&] { b.m = build_any(b.spec); }); bool serial = choose(5) == 4;
        repeat(fmt_name[fmt], 4, 40, 30, [&] { check_spmv(b, "wrong-result", 7, 0, serial); });
    } else if (mode == 2) {
        SortJob j{}; j.kind = choose(S_BLOCK_TRIP + 1); j.dbl = choose(2); j.n = choose(4) == 3 ? 900 + choose(500) : choose(60); std::vector<Rec> in(j.n); Rng g(seed32()); uint32_t dim = 1 + g.below(60);
        for (uint32_t i = 0; i < j.n; i++) in[i] = {g.below(dim), g.below(dim), (double)i, 0}; j.width = 1 + g.below(9); auto ro = gen_offsets(dim, 8), co = gen_offsets(dim, 8);
        j.roff = ro.data(); j.coff = co.data(); j.nbr = (uint32_t)ro.size() - 1; j.nbc = (uint32_t)co.size() - 1; j.bs_r = 1 + g.below(9); j.bs_c = 1 + g.below(9); if (j.kind == S_BLOCK_ELEM_EQ) j.nbc = (dim + j.bs_c - 1) / j.bs_c;
        note("sort %d of %u", j.kind, j.n); std::vector<Rec> w(j.n); j.rec = w.data();
        repeat("sort", 2, 20, 14, [&] { w = in; cfg.nofail_left = choose(6) == 5 ? (int)choose(2) : -1; guest([&] { run_sort(j); }); cfg.nofail_left = -1; });
    } else if (mode == 4) {
        static const int readers[] = {R_BLK_CGBR16, R_BLK_CGBR8, R_BLK_CSBR, R_BLK_CSBR2, R_CSR, R_BIN_C2, R_BIN_C3, R_ANY_C2, R_ANY_C3, R_3_COO1, R_3_C2, R_3_C3, R_MM_C2, R_MM_C3};
        int fn = readers[choose(14)]; Content c; bool blocked = fn >= R_BLK_CSBR;
        if (blocked) { c = gen_blocked(200, tiny ? 60 : 400, fn == R_BLK_CGBR8 ? 200 : 2000); block_sort(c); } else { c = gen_content(tiny ? 60 : 400, 300, 300, SMALL_INT); sort_rows(c); }
        put_files(c, fn); if (fn == R_MM_C2 || fn == R_MM_C3) { IoJob w; call_io(W_MM_C3, c, w); free_rec(w); }
        note("%s and release: %ux%u, %zu entries", io_name[fn], c.rows, c.cols, c.rec.size()); tame_io(); size_t n0 = 0; const uint32_t reps = 16, own = blocked && fn >= R_BLK_CGBR16 ? 2 : 0;
        for (uint32_t i = 0; i < reps + 2; i++) {
            if (i == 2) n0 = glive_count();
            IoJob j; j.fn = fn; Files f = files_of(fn); j.dbl = c.dbl; j.f1 = f.f[0]; j.f2 = f.f[1]; j.f3 = f.f[2]; j.fill = cfg.fill; j.drop = true;
            if (blocked) { j.nbr = (uint32_t)c.roff.size() - 1; j.nbc = (uint32_t)c.coff.size() - 1; j.roff = c.roff.data(); j.coff = c.coff.data(); }
            guest([&] { run_io(j); }); if (j.ret < 0) violate("refused", "%s returned %d for a valid file", io_name[fn], j.ret);
        }
        size_t n1 = glive_count(); if (n1 > n0 + reps * own + 8) violate("memory-growth", "reading with %s and releasing %u times keeps %zu blocks, of which %u belong to the caller", io_name[fn], reps, n1 - n0, reps * own);
    } else {
        int fmt = pick_fmt(0, ALL_FMTS); Built b = make_built(fmt, gen_for_format(fmt, 120, 100), cfg.workers); int kind = source_kind(fmt);
        uint32_t own = callers_share(fmt, b.spec.mode);
        note("build and release"); size_t n0 = 0; uint32_t reps = 16; guest([&] { Spec s = b.spec; s.src = nullptr; Mat *w = build_any(s); w->release(); });
        for (uint32_t i = 0; i < reps + 2; i++) {
            if (i == 2) n0 = glive_count();
            guest([&] { Spec s = b.spec; s.src = make_source(s, kind); Mat *w = build_any(s); w->release(); source_release(s.src, kind, s.dbl); });
        }
        size_t n1 = glive_count(); uint32_t adapter = 1;                 // the wrapper object of the harness
        if (n1 > n0 + reps * (own + adapter) + 8) violate("memory-growth", "building and releasing %s %u times keeps %zu blocks, of which %u belong to the caller", fmt_name[fmt], reps, n1 - n0, reps * (own + adapter));
    }
    nontrivial();
}
static Register r28({"C28", c28, "a run repeats one multiplication, one sort or one build and release and counts the memory held; always non-trivial; distinct by hash of all events",
    "all formats, constructors, release functions, sorts, multiplication kernels", "OpenMP runtime, memory allocator (failing scratch allocations)"});
