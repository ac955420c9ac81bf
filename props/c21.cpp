// C21: automatic block size.  C22: bit-for-bit reproducibility.
#include "util.h"
using namespace sim; using namespace api;
static uint32_t any_dim() {
    switch (choose(5)) { case 0: return range(1, 300); case 1: { uint32_t p = 1u << choose(32); return p + choose(2) - (p > 1 ? choose(2) : 0); } case 2: return range(1, 5000); case 3: return range(1, 40); default: { uint32_t v = seed32() >> choose(32); return v ? v : 1; } }
}
static void check_pick(uint64_t m, uint64_t n, int w, uint64_t got) {
    typedef unsigned long long L; L M = m, N = n, G = got;
    if (got == 0) return;
    if (got & (got - 1)) violate("pick", "picked block size %llu for %llux%llu with %d workers is not a power of two", G, M, N, w);
    uint64_t p = 1; while (p < std::min(m, n)) p *= 2;
    if (got > p) violate("pick", "picked block size %llu for %llux%llu with %d workers is larger than the matrix needs", G, M, N, w);
    // eight block-rows per worker once the rows are rounded up to a power of two
    if (w > 1 && m < got * 4 * w) violate("pick", "picked block size %llu leaves %llu block-rows of %llu rows for %d workers", G, M / G, M, w);
}
static void c21() {
    static const int ws[] = {4, 1, 2, 3, 5, 8, 16, 64, 250};
    if (choose(2)) {
        for (int k = 0; k < 16; k++) { uint32_t m = any_dim(), n = choose(3) ? any_dim() : m, vs = choose(2) ? 8 : 4, got = 0; int w = choose(2) ? ws[choose(9)] : (int)range(1, 200); guest([&] { got = pick(m, n, vs, w); }); check_pick(m, n, w, got); if (got) probe("split"); else probe("no_split"); }
        for (int k = 0; k < 4; k++) {          // dimensions that need 64-bit indices
            uint64_t m = (uint64_t)any_dim() << choose(12), n = choose(3) ? (uint64_t)any_dim() << choose(12) : m, got = 0; uint32_t vs = choose(2) ? 8 : 4; int w = choose(2) ? ws[choose(9)] : (int)range(1, 200);
            guest([&] { got = pick_u64(m, n, vs, w); }); check_pick(m, n, w, got); if ((m | n) >> 32) probe(got ? "split_64_bit" : "no_split_64_bit");
            // one block per cell of the grid: the constructors can only number the blocks when their ids fit
            if (got && (m / got + 1) > ~0ull / (n / got + 1)) violate("pick", "picked block size %llu for %llux%llu with %d workers gives more blocks than can be numbered", (unsigned long long)got, (unsigned long long)m, (unsigned long long)n, w);
        }
        nontrivial(); return;
    }
    static const int fm[] = {CSBR_C2, CSBR_C3, CSBR2_C3, CGBR16, CGBR8, CGBR2_16, CGBR2_8}; int fmt = fm[choose(7)];
    random_schedule_config(); int pw = choose(3) ? ws[choose(9)] : (int)range(1, 70); set_workers(ws[choose(9)]);
    uint32_t cap = choose(6) == 5 ? 5000 : 700;
    Matrix m; m.rows = range(1, cap); m.cols = choose(3) ? range(1, cap) : m.rows;
    if (choose(4) == 3) { m.rows = 1u << choose(cap > 256 ? 10 : 9); m.cols = 1u << choose(cap > 256 ? 10 : 9); }
    gen_entries(m, 1500); if (choose(90) == 89) m = gen_huge(fmt);
    Built b = make_built(fmt, m, pw); b.spec.mode = BY_PICK; b.spec.workers = pw;
    if (fmt == CSBR_C2 || fmt == CSBR_C3 || fmt == CGBR2_16 || fmt == CGBR2_8) b.spec.force_balanced = (int)choose(2);
    uint32_t got = 0; guest([&] { got = pick(m.rows, m.cols, b.dbl ? 8 : 4, pw); }); check_pick(m.rows, m.cols, pw, got);
    note("picked block size %u for %ux%u and %d workers", got, m.rows, m.cols, pw); probe(got ? "split" : "no_split");
    history(b);
    guest([&] { b.m = build_blk(b.spec); });
    multiply_many(b, "wrong-result");
}
static void c22() {
    int fmt = pick_fmt(0, ALL_FMTS); set_workers(any_workers());
    Matrix m = gen_for_format(fmt, 300, 900); Rng g(seed32());
    auto val = [&] { double v = ((double)(g.next() >> 11) / 9007199254740992.0 + 0.5) * (g.below(2) ? 1 : -1); return std::ldexp(v, (int)g.below(41) - 20); };
    for (auto &e : m.e) e.v = val();
    Built b = make_built(fmt, m, cfg.workers);
    if (fmt == CSBR_C2 || fmt == CSBR_C3 || fmt >= CGBR2_16) b.spec.force_balanced = (int)choose(2);
    history(b); cfg.preempt = false; guest([&] { b.m = build_any(b.spec); }); cfg.preempt = true;
    Vec x(b.dbl, m.cols), y(b.dbl, m.rows); std::vector<double> y0(m.rows); for (uint32_t i = 0; i < m.cols; i++) x.set(i, val()); for (auto &v : y0) v = b.dbl ? val() : (float)val();
    std::string ref; uint32_t reps = 3 + choose(3);
    for (uint32_t k = 0; k < reps; k++) {
        random_schedule_config(); set_workers(any_workers()); if (k == 0) { set_workers(1); cfg.nested = false; }
        for (uint32_t i = 0; i < m.rows; i++) y.set(i, y0[i]);
        // the vectors may lie anywhere
        uint32_t es = b.dbl ? 8 : 4; Vec xa(b.dbl, m.cols + 16), ya(b.dbl, m.rows + 16); void *xp = (char *)xa.p + es * choose(16), *yp = (char *)ya.p + es * choose(16);
        memcpy(xp, x.p, x.bytes()); memcpy(yp, y.p, y.bytes());
        guest([&] { b.m->spmv(xp, yp); });
        memcpy(y.p, yp, y.bytes()); xa.free_(); ya.free_(); std::string got((char *)y.p, y.bytes());
        if (k == 0) ref = got;
        else if (got != ref) { uint32_t i = 0; while (got.compare(i * es, es, ref, i * es, es) == 0) i++;
            violate("not-reproducible", "%s<%s>: y[%u] = %.17g with one worker, %.17g with up to %d workers (%s)", fmt_name[fmt], b.dbl ? "double" : "float", i, es == 8 ? ((double *)ref.data())[i] : ((float *)ref.data())[i], y.get(i), cfg.workers, shape_str(m).c_str()); }
    }
}
static Register r21({"C21", c21, "a run picks block sizes for up to sixteen shapes, or builds and multiplies one matrix with the picked size; counted when it did either under a schedule choice; distinct by hash of all events",
    "pick_block_size, constant-size blocked constructors, multiplication", "OpenMP runtime, memory allocator"});
static Register r22({"C22", c22, "a run multiplies one matrix three to five times with identical inputs under independent schedules and team sizes; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "all formats and multiplication kernels", "OpenMP runtime, memory allocator"});
