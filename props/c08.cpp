// C08: block-row partition covers every block exactly once, in order.
#include "util.h"
#include "../guest/part.h"
using namespace sim; using namespace api;
static std::vector<std::vector<uint32_t>> table(PartMat *p, const char *nm) {
    std::vector<std::vector<uint32_t>> t; bool part = false; uint32_t nbr = 0, nb = 0; guest([&] { part = p->partitioned(); nbr = p->blockrows(); nb = p->nblocks(); });
    if (!part) { probe("balanced"); return t; }
    uint32_t covered = 0;
    for (uint32_t br = 0; br < nbr; br++) {
        uint32_t n = 0, a = 0, z = 0; guest([&] { n = p->nbounds(br); a = p->first_block(br); z = p->first_block(br + 1); });
        std::vector<uint32_t> c; for (uint32_t i = 0; i < n; i++) { uint32_t v = 0; guest([&] { v = p->bound(br, i); }); c.push_back(v); }
        if (n < 2) violate("partition", "%s: block-row %u has %u chunk bounds", nm, br, n);
        if (c[0] != a || c[n - 1] != z) violate("partition", "%s: chunks of block-row %u span [%u,%u), its blocks are [%u,%u)", nm, br, c[0], c[n - 1], a, z);
        for (uint32_t i = 1; i < n; i++) if (c[i] < c[i - 1]) violate("partition", "%s: chunk bounds of block-row %u decrease at %u", nm, br, i);
        if (n - 1 > (z - a) + 1) violate("partition", "%s: block-row %u has %u chunks for %u blocks", nm, br, n - 1, z - a);
        if (n > 2) probe("split_block_row");
        covered += z - a; t.push_back(c);
    }
    if (covered != nb) violate("partition", "%s: chunks cover %u of %u blocks", nm, covered, nb);
    return t;
}
static void others(int fmt) {                       // other matrices, built under other worker counts
    uint32_t k = 1 + choose(2); probe("history");
    for (uint32_t i = 0; i < k; i++) {
        static const int w[] = {1, 4, 16, 200, 2, 3, 7}; set_workers(w[choose(7)]); Matrix m; gen_shape(m, 300, 300); gen_entries(m, rarely(600, 5000));
        Built h = make_built(fmt, m, cfg.workers, false); h.spec.mode = BY_OFFSETS;
        if (!h.spec.roff) { h.roff = gen_offsets(m.rows, range(1, 60)); h.coff = gen_offsets(m.cols, range(1, 60)); h.spec.roff = h.roff.data(); h.spec.coff = h.coff.data(); h.spec.nbr = (uint32_t)h.roff.size() - 1; h.spec.nbc = (uint32_t)h.coff.size() - 1; }
        PartMat *o = nullptr; guest([&] { o = build_part(h.spec); }); table(o, fmt_name[fmt]);
    }
}
static void c08() {
    static const int fm[] = {CSBR_C3, CSBR_C2, CGBR16, CGBR8, CGBR2_16, CGBR2_8}; int fmt = fm[choose(6)];
    static const int w[] = {4, 1, 2, 3, 8, 16, 64, 200}; int bw = w[choose(8)]; random_schedule_config(); set_workers(bw);
    Matrix m; { uint32_t d = rarely(600, 3000); gen_shape(m, d, d); } gen_entries(m, rarely(1500, 9000));
    bool longrow = choose(300) == 299;
    if (longrow) {                                  // tens of thousands of blocks in a block-row
        probe("long_block_row"); bw = 1 + bw % 4; set_workers(bw); m.rows = 1 + choose(12); m.cols = 60000 + choose(140000); m.e.clear(); Rng g(seed32()); uint32_t gap = 1 + choose(3);
        for (uint32_t c = g.below(3); c < m.cols; c += 1 + g.below(gap)) m.e.push_back({g.below(m.rows), c, 1.0}); cfg.step_cap = 2000000000ull; cfg.preempt = choose(6) == 5;
    }
    Built b = make_built(fmt, m, bw); b.spec.mode = BY_OFFSETS;
    if (longrow) { b.roff = gen_offsets(m.rows, 1 + choose(12)); b.coff.clear(); for (uint32_t i = 0; i <= m.cols; i++) b.coff.push_back(i); b.spec.roff = b.roff.data(); b.spec.coff = b.coff.data(); b.spec.nbr = (uint32_t)b.roff.size() - 1; b.spec.nbc = m.cols; }
    if (!b.spec.roff) { uint32_t mb = fmt == CGBR8 || fmt == CGBR2_8 ? 256 : 1 << 16; b.roff = gen_offsets(m.rows, std::min(mb, range(1, 200))); b.coff = gen_offsets(m.cols, std::min(mb, range(1, 60))); b.spec.roff = b.roff.data(); b.spec.coff = b.coff.data(); b.spec.nbr = (uint32_t)b.roff.size() - 1; b.spec.nbc = (uint32_t)b.coff.size() - 1; }
    PartMat *p = nullptr, *q = nullptr;
    if (choose(4) == 3) { others(fmt); set_workers(bw); }
    guest([&] { p = build_part(b.spec); });
    auto t = table(p, fmt_name[fmt]);
    // another build under another schedule, other previous memory contents, perhaps in another process or after other matrices
    if (choose(3) == 2) { statics_reset(); note("in a new process"); }
    if (choose(3) == 2) others(fmt);
    random_schedule_config(); set_workers(bw); cfg.fill ^= 0xFF; b.spec.fill ^= 1;
    guest([&] { q = build_part(b.spec); });
    if (table(q, fmt_name[fmt]) != t) violate("partition-unstable", "%s: two builds of the same matrix with %d workers have different chunk tables", fmt_name[fmt], bw);
    // multiplying under another worker count does not change it
    set_workers(any_workers()); cfg.preempt = false; Vec x(b.dbl, m.cols), y(b.dbl, m.rows); for (uint32_t i = 0; i < m.cols; i++) x.set(i, 1); for (uint32_t i = 0; i < m.rows; i++) y.set(i, 0);
    guest([&] { p->spmv(x.p, y.p); });
    if (table(p, fmt_name[fmt]) != t) violate("partition-unstable", "%s: multiplying changed the chunk table", fmt_name[fmt]);
}
static Register r8({"C08", c08, "a run builds one blocked matrix twice and inspects its chunk tables; counted when a choice among several runnable workers was made; distinct by hash of all events",
    "blocked-format constructors, partitioning", "OpenMP runtime, memory allocator"});
