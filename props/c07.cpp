// C07: conversions between storage formats conserve the matrix.
#include "util.h"
using namespace sim; using namespace api;
static void c07() {
    int fmt = pick_fmt(0, ALL_FMTS); random_schedule_config(); set_workers(any_workers());
    static const uint32_t cs[] = {12, 3, 30, 70}; bool big = choose(12) == 11; uint32_t maxc = cs[choose(big ? 3 : 4)];
    Matrix m; gen_shape(m, big ? 6000 : choose(4) == 3 ? 700 : 120, maxc);
    if (fmt >= DENSE_C2 && fmt <= DENSE_PAR) m.rows = std::min(m.rows, 130u);
    gen_entries(m, big ? 12000 : choose(5) == 4 ? 4000 : 700);
    bool fat = (fmt < DENSE_C2 || fmt > DENSE_PAR) && choose(600) == 599, b8 = fmt == CGBR8 || fmt == CGBR2_8;
    if (fat) {                                       // one block holds more entries than 16 bits can count
        probe("fat_block"); big = true; m.cols = b8 ? 256 : 12 + choose(60); m.rows = b8 ? 256 : (66000 + choose(20000)) / m.cols + 1; m.e.clear(); Rng g(seed32());
        uint32_t hole = choose(2); for (uint32_t r = 0; r < m.rows; r++) for (uint32_t c = 0; c < m.cols; c++) if (!hole || g.below(3000)) m.e.push_back({r, c, (double)(1 + g.below(900))});
    }
    bool tall = !fat && (fmt < DENSE_C2 || fmt > DENSE_PAR) && fmt != COO1_C && choose(700) == 699;
    if (tall) {                                      // more rows (and blocks) than 16 bits can count
        probe("tall"); big = true; m.cols = 1 + choose(4); m.rows = 65530 + choose(14000); m.e.clear(); Rng g(seed32());
        for (uint32_t r = 0; r < m.rows; r++) if (g.below(50)) m.e.push_back({r, g.below(m.cols), (double)(1 + g.below(900))});
        if (choose(2)) for (size_t i = m.e.size(); i > 1; i--) std::swap(m.e[i - 1], m.e[g.below((uint32_t)i)]);
    }
    // without duplicates the values may be anything: they must come back unchanged
    std::map<std::pair<uint32_t, uint32_t>, double> sum; bool dup = false; bool dbl_only = false;
    for (auto &e : m.e) { auto k = std::make_pair(e.r, e.c); if (sum.count(k)) dup = true; sum[k] += e.v; }
    if (!dup && choose(2)) {
        Rng g(seed32()); sum.clear(); (void)dbl_only;
        for (auto &e : m.e) { float f = (float)((double)(int64_t)g.next() * 1e-12); if (g.below(30) == 0) f = 3.4e38f; if (g.below(30) == 0) f = -1e-38f; if (f == 0) f = 1; e.v = f; sum[{e.r, e.c}] = e.v; }
        probe("arbitrary_values");
    }
    Built b = make_built(fmt, m, cfg.workers);
    if (fat && fmt >= ROW_FMTS) {
        b.spec.mode = BY_OFFSETS; b.roff = {0, m.rows}; b.coff = {0, m.cols}; if (choose(2)) b.roff = {0, m.rows - choose(4) - 1, m.rows};
        b.spec.roff = b.roff.data(); b.spec.coff = b.coff.data(); b.spec.nbr = (uint32_t)b.roff.size() - 1; b.spec.nbc = 1; cfg.step_cap = 2000000000ull;
    }
    if (tall && fmt >= ROW_FMTS) {
        b.spec.mode = BY_OFFSETS; b.roff = gen_offsets(m.rows, 1 + choose(3) / 2); b.coff = {0, m.cols}; cfg.step_cap = 2000000000ull;
        b.spec.roff = b.roff.data(); b.spec.coff = b.coff.data(); b.spec.nbr = (uint32_t)b.roff.size() - 1; b.spec.nbc = 1;
    }
    if (tall && b.spec.width > 1) b.spec.width = 1;
    history(b);
    if (choose(5) == 4) cfg.nofail_left = (int)choose(4);
    if (choose(big ? 2 : 3)) cfg.race = RACE_ALL;
    guest([&] { b.m = build_any(b.spec); });
    cfg.nofail_left = -1; cfg.race = RACE_OFF; cfg.preempt = false;
    const char *nm = fmt_name[fmt];
    if (b.m->nonzeros() != m.e.size()) violate("entry-count", "%s reports %llu entries, source has %zu", nm, (unsigned long long)b.m->nonzeros(), m.e.size());
    if (b.m->shape_rows() != ~0ull && (b.m->shape_rows() != m.rows || b.m->shape_cols() != m.cols)) violate("shape", "%s is %llux%llu, source is %ux%u", nm, (unsigned long long)b.m->shape_rows(), (unsigned long long)b.m->shape_cols(), m.rows, m.cols);
    uint64_t bc[6], nc[6];
    if (b.m->stats(bc, nc)) {
        uint64_t B = 0, N = 0; for (int i = 0; i < 6; i++) { B += bc[i]; N += nc[i]; if (nc[i] && !bc[i]) violate("statistics", "%s counts %llu entries in zero blocks of type %d", nm, (unsigned long long)nc[i], i); }
        if (B != b.m->nblocks() || N != m.e.size()) violate("statistics", "%s: per-type statistics add up to %llu blocks and %llu entries, the matrix has %llu and %zu", nm, (unsigned long long)B, (unsigned long long)N, (unsigned long long)b.m->nblocks(), m.e.size());
    }
    if (fmt >= ROW_FMTS && choose(2)) {          // the same again where the memory held something else
        Spec s2 = b.spec; s2.object = nullptr; s2.fill = !s2.fill; uint8_t old = cfg.fill; cfg.fill = old == 0 ? 0xFF : 0; Mat *w = nullptr; guest([&] { w = build_any(s2); }); cfg.fill = old; uint64_t b2[6], n2[6];
        bool same = w->balanced() == b.m->balanced() && w->nblocks() == b.m->nblocks() && w->nonzeros() == b.m->nonzeros();
        if (b.m->stats(bc, nc)) { w->stats(b2, n2); for (int i = 0; i < 6; i++) same = same && bc[i] == b2[i] && nc[i] == n2[i]; }
        if (!same) violate("memory-contents", "%s: what is built depends on the previous contents of its memory (balanced %d and %d, %llu and %llu blocks)", nm, b.m->balanced(), w->balanced(), (unsigned long long)b.m->nblocks(), (unsigned long long)w->nblocks());
        probe("built_twice");
    }
    Ent e0; bool coord = false; guest([&] { coord = !m.e.empty() && b.m->entry(0, &e0); });
    if (coord) {
        std::vector<std::tuple<uint32_t, uint32_t, double>> a, c;
        for (uint32_t i = 0; i < m.e.size(); i++) { Ent x{}; guest([&] { b.m->entry(i, &x); }); a.push_back({x.r, x.c, x.v}); c.push_back({m.e[i].r, m.e[i].c, b.dbl ? m.e[i].v : (double)(float)m.e[i].v}); }
        std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end());
        if (a != c) violate("lost-entry", "%s: the stored entries are not the source's", nm);
    }
    Vec x(b.dbl, m.cols), y(b.dbl, m.rows);
    for (uint32_t j = 0; j < m.cols; j++) {
        for (uint32_t i = 0; i < m.cols; i++) x.set(i, i == j); for (uint32_t i = 0; i < m.rows; i++) y.set(i, 0);
        bool serial = j % 7 == 6, has = false;
        if (serial) guest([&] { has = b.m->spmv_serial(x.p, y.p); });
        if (!has) guest([&] { b.m->spmv(x.p, y.p); });
        for (uint32_t i = 0; i < m.rows; i++) {
            auto it = sum.find({i, j}); double w = it == sum.end() ? 0 : b.dbl ? it->second : (double)(float)it->second;
            if (y.get(i) != w) violate("lost-entry", "%s<%s>: entry (%u,%u) reads back as %.17g, source has %.17g", nm, b.dbl ? "double" : "float", i, j, y.get(i), w);
        }
    }
    nontrivial();
}
static Register r7({"C07", c07, "a run converts one matrix and reads the result back column by column; always non-trivial; distinct by hash of all events",
    "all constructors and conversions, sorts, all multiplication kernels", "OpenMP runtime, memory allocator (dirty memory, failing scratch allocations)"});
