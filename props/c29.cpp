// C29: indices that do not fit the index type of a block or a wide row.
#include "util.h"
#include "iou.h"
using namespace sim; using namespace api;
static uint64_t capacity(int fmt) { return fmt == CSWR8_C3 || fmt == CGBR8 || fmt == CGBR2_8 ? 256 : 65536; }
static uint64_t widest(const std::vector<uint32_t> &o) { uint64_t w = 0; for (size_t i = 1; i < o.size(); i++) w = std::max<uint64_t>(w, o[i] - o[i - 1]); return w; }
// more cells than the index type can number
static void dense_cells() {
    static const int fm[] = {DENSE_C2, DENSE_C3, DENSE_SER, DENSE_PAR}; int fmt = fm[choose(4)]; Matrix m; Rng g(seed32());
    static const uint32_t d[] = {65536, 65537, 131072, 65538, 70000, 1u << 20, 0x80000000u, 0xffffffffu, 92683}; m.rows = d[choose(9)];
    uint64_t need = (1ull << 32) / m.rows + ((1ull << 32) % m.rows != 0); m.cols = (uint32_t)std::min<uint64_t>(0xffffffffu, need + choose(choose(2) ? 4 : 70000)); if (choose(2)) std::swap(m.rows, m.cols);
    if ((uint64_t)m.rows * m.cols < 1ull << 32) return;
    for (uint32_t i = choose(20); i; i--) m.e.push_back({g.below(m.rows), g.below(m.cols), 1.0});
    Built b = make_built(fmt, m, cfg.workers); probe("dense_overflow");
    Result r = guarded([&] { guest([&] { b.m = build_any(b.spec); }); });
    if (r.outcome == CRASHED) violate("crash", "%s, %ux%u: %s", fmt_name[fmt], m.rows, m.cols, r.msg.c_str());
    if (r.outcome == RETURNED) violate("overflow", "%s was built for a %ux%u matrix, whose cells it cannot number", fmt_name[fmt], m.rows, m.cols);
    nontrivial();
}
// more blocks than the index type can number
static void grid_cells() {
    static const int fm[] = {CSBR_C2, CSBR_C3, CSBR2_C3, CGBR16, CGBR8, CGBR2_16, CGBR2_8}; int fmt = fm[choose(7)]; Matrix m; Rng g(seed32()); cfg.step_cap = 2000000000ull;
    m.rows = 65536 + choose(3000); m.cols = 65537 + choose(3000); if (choose(2)) std::swap(m.rows, m.cols);
    for (uint32_t i = 1 + choose(20); i; i--) m.e.push_back({g.below(m.rows), g.below(m.cols), 1.0});
    if (choose(4)) for (int i = 0; i < 3; i++) { uint64_t id = (1ull << 32) + g.below((uint32_t)std::min<uint64_t>((uint64_t)m.rows * m.cols - (1ull << 32), 0x7fffffff)); for (int k = 0; k < 2; k++, id -= 1ull << 32) m.e.push_back({(uint32_t)(id / m.cols), (uint32_t)(id % m.cols), 2.0 + i}); }   // two cells whose numbers differ by 2^32
    Built b = make_built(fmt, m, cfg.workers); Spec &s = b.spec; probe("grid_overflow");
    if (choose(2)) { s.mode = BY_SIZE; s.nbr = s.nbc = 1; }
    else { s.mode = BY_OFFSETS; b.roff.clear(); b.coff.clear(); for (uint32_t i = 0; i <= m.rows; i++) b.roff.push_back(i); for (uint32_t i = 0; i <= m.cols; i++) b.coff.push_back(i); s.roff = b.roff.data(); s.coff = b.coff.data(); s.nbr = m.rows; s.nbc = m.cols; }
    Result r = guarded([&] { guest([&] { b.m = build_any(b.spec); }); });
    if (r.outcome == CRASHED) violate("crash", "%s, %ux%u blocks: %s", fmt_name[fmt], m.rows, m.cols, r.msg.c_str());
    if (r.outcome == RETURNED) check_spmv(b, "overflow", seed32(), 0);
    nontrivial();
}
static void c29() {
    if (choose(12) == 11) { random_schedule_config(); set_workers(any_workers()); dense_cells(); return; }
    if (choose(40) == 39) { random_schedule_config(); set_workers(any_workers()); grid_cells(); return; }
    static const int fm[] = {CGBR2_8, CGBR8, CGBR16, CGBR2_16, CSWR16_C2, CSWR8_C3, COO1_C, CGBR2_FAC}; int fmt = fm[choose(8)]; uint64_t cap = capacity(fmt); bool file = (fmt == CGBR8 || fmt == CGBR16) && choose(2);
    random_schedule_config(); set_workers(any_workers());
    Matrix m; if (cap == 65536 && choose(3)) { m = gen_huge(fmt == COO1_C ? CSR_C2 : fmt); if (m.e.size() > 3000) m.e.resize(3000); }
    else { gen_shape(m, 1200, 1200); gen_entries(m, 900); }
    if (cap == 256 && !m.e.empty() && choose(2)) { Rng g(seed32()); for (int i = 0; i < 5; i++) { Ent &e = m.e[g.below((uint32_t)m.e.size())]; e.r = std::min(m.rows - 1, 254 + g.below(4)); e.c = std::min(m.cols - 1, 254 + g.below(4)); } }
    Built b = make_built(fmt, m, cfg.workers); Spec &s = b.spec; bool allowed = false; if (s.index && !file && (fmt == CGBR16 || fmt == CGBR2_FAC)) { cap = 1ull << 32; probe("wide_block_index"); }
    if (fmt >= ROW_FMTS) {
        if (s.mode == BY_OFFSETS || file) {
            static const uint32_t bs[] = {255, 256, 257, 300, 1000, 65535, 65536, 65537, 1u << 18}; s.mode = BY_OFFSETS;
            b.roff = gen_offsets(m.rows, bs[choose(9)]); b.coff = gen_offsets(m.cols, bs[choose(9)]);
            if ((uint64_t)b.roff.size() * b.coff.size() > 1000000) return;
            s.roff = b.roff.data(); s.coff = b.coff.data(); s.nbr = (uint32_t)b.roff.size() - 1; s.nbc = (uint32_t)b.coff.size() - 1; allowed = widest(b.roff) > cap || widest(b.coff) > cap;
        }
    } else if (fmt == COO1_C) allowed = m.rows > cap || m.cols > cap;
    else { static const uint32_t w[] = {255, 256, 257, 511, 65535, 65536, 65537, 70000, 131072, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; s.width = choose(3) ? w[choose(13)] : 1 + choose(3000); allowed = std::min(s.width, m.rows) > cap; }
    note("largest blocks %llux%llu, width %u%s", (unsigned long long)widest(b.roff), (unsigned long long)widest(b.coff), s.width, file ? ", from a file" : "");
    Result r; IoJob j;
    if (file) {
        Content c = from_matrix(b.src, b.dbl); c.roff = b.roff; c.coff = b.coff; block_sort(c); int fn = fmt == CGBR8 ? R_BLK_CGBR8 : R_BLK_CGBR16; put_files(c, fn); tame_io();
        r = call_io(fn, c, j); b.m = j.mat; if (r.outcome == RETURNED && j.ret < 0) r.outcome = FAILSTOP;
    } else { bool pre = cfg.preempt; if (choose(2)) cfg.preempt = false; r = guarded([&] { guest([&] { b.m = build_any(s); }); }); cfg.preempt = pre; }
    if (r.outcome == CRASHED) violate("crash", "%s: %s", fmt_name[fmt], r.msg.c_str());
    if (r.outcome != RETURNED) { if (!allowed) violate("refused", "%s refused a matrix whose indices fit: %s", fmt_name[fmt], r.msg.c_str()); probe("refused"); nontrivial(); return; }
    if (allowed) probe("beyond_capacity_but_built");
    multiply_many(b, "truncated-index"); nontrivial();
}
static Register r29({"C29", c29, "a run builds or reads one matrix whose blocks or wide rows are around or beyond what their indices can hold, and multiplies it when it was accepted; counted when it was refused or multiplied; distinct by hash of all events",
    "constructors and multiplication of all formats with narrow indices, blocked file readers", "OpenMP runtime, disk under stdio, memory allocator"});
