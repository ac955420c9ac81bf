// C03: y += A*x when block-rows are split into chunks that run as tasks.
#include "util.h"
using namespace sim; using namespace api;
static void c03() {
    static const int fm[] = {CSBR_C2, CSBR_C3, CGBR16, CGBR8, CGBR2_16, CGBR2_8, CGBR2_FAC};
    int fmt = fm[choose(7)]; random_schedule_config(); set_workers(any_workers());
    Matrix m; { uint32_t d = rarely(600, 5000); gen_shape(m, d, d); }
    if (choose(90) == 89) m = gen_huge(fmt);
    else if (choose(3)) gen_entries(m, rarely(1500, 9000));
    else {                                        // one or a few heavy block-rows: many chunks
        Rng g(seed32()); uint32_t h = std::min(m.rows, range(1, 12)), r0 = choose(m.rows - h + 1), n = range(20, 900);
        for (uint32_t i = 0; i < n; i++) m.e.push_back({r0 + g.below(h), g.below(m.cols), (double)(1 + (int)g.below(8))});
        for (uint32_t i = 0; i < n / 20; i++) m.e.push_back({g.below(m.rows), g.below(m.cols), -(double)(1 + (int)g.below(8))});
        probe("heavy_block_rows");
    }
    bool many = choose(20) == 19;                 // a machine with many processors: hundreds of chunks in one block-row
    if (many) {
        static const int w[] = {64, 128, 256, 300}; set_workers(w[choose(4)]); Rng g(seed32()); m = Matrix(); m.rows = range(1, 40); m.cols = range(120, 900); probe("hundreds_of_chunks");
        uint32_t h = std::min(m.rows, range(1, 3)), n = range(120, 900); for (uint32_t i = 0; i < n; i++) m.e.push_back({g.below(h), g.below(2) ? g.below(m.cols) : i % m.cols, (double)(1 + (int)g.below(8))});
    }
    Built b = make_built(fmt, m, cfg.workers);
    if (many) { Spec &s = b.spec; s.mode = BY_OFFSETS; b.roff = gen_offsets(m.rows, range(1, 40)); b.coff = gen_offsets(m.cols, range(1, 3)); s.roff = b.roff.data(); s.coff = b.coff.data(); s.nbr = (uint32_t)b.roff.size() - 1; s.nbc = (uint32_t)b.coff.size() - 1; }
    if (fmt != CGBR16 && fmt != CGBR8) b.spec.force_balanced = 0;    // these build their chunk tables only when needed
    history(b); cfg.preempt = choose(4) == 3; guest([&] { b.m = build_blk(b.spec); }); cfg.preempt = true;
    if (b.m->balanced() == 1) probe("balanced"); else probe("chunked");
    multiply_many(b, "wrong-result");
}
static Register r3({"C03", c03, "a run is one matrix multiplied one to three times under worker counts independent of the one it was built with; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "blocked-format constructors, partitioning, chunked multiplication, block storage classes", "OpenMP runtime (tasks, nested teams), memory allocator"});
