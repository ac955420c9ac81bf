#include "util.h"
#include <cstdio>
namespace api {
const char *const fmt_name[ALL_FMTS] = {"Csr<-Coo2", "Csr<-Coo3", "Csr2<-Coo2", "Csr2<-Coo3", "Cswr16<-Coo2", "Cswr8<-Coo3", "CompRowCsr<-Coo2", "CompRowCsr<-Coo3", "Coo(Morton)", "Coo<-Coo2", "Coo2", "Coo3", "Dense<-Coo2", "Dense<-Coo3", "DenseSerial", "DenseParallel",
    "Csbr<-Coo2", "Csbr<-Coo3", "Csbr2<-Coo3", "Cgbr16", "Cgbr8", "Cgbr2-16", "Cgbr2-8", "Cgbr2(all block kinds)"};
void *adapter_alloc(size_t n) { sim::Host h; return sim::galloc(n); }
}
using namespace sim;
using namespace api;

uint32_t special_size(uint32_t max) {          // around powers of two, multiples of usual batch sizes
    uint32_t n;
    switch (choose(3)) { case 0: n = (1u << choose(14)) + choose(3); n -= n > 1; break; case 1: n = 64 * choose(100); break; default: n = 100 * choose(60); }
    return std::min(n, max);
}
uint32_t rarely(uint32_t usual, uint32_t big, uint32_t den) { return choose(den) == den - 1 ? big : usual; }
void gen_shape(Matrix &m, uint32_t mr, uint32_t mc) {
    static const uint32_t caps[] = {16, 4, 48, 130, 300, 1200};
    uint32_t cap = std::max(mr, mc) > 1200 ? std::max(mr, mc) : caps[choose(6)];
    uint32_t r = std::min(mr, cap), c = std::min(mc, cap);
    switch (choose(8)) {
    case 0: case 1: case 2: m.rows = range(1, r); m.cols = range(1, c); break;      // anything
    case 3: m.rows = m.cols = range(1, std::min(r, c)); break;                         // square
    case 4: m.rows = range(1, r); m.cols = range(1, std::min(c, 8u)); break;          // tall
    case 5: m.rows = range(1, std::min(r, 8u)); m.cols = range(1, c); break;          // wide
    case 6: m.rows = choose(2) ? r : 1; m.cols = choose(2) ? c : 1; break;             // extremes
    default: { uint32_t p = 1u << choose(9); m.rows = std::min(r, p + choose(3)); m.cols = std::min(c, p + choose(3)); if (m.rows > 1) m.rows -= choose(2); break; }
    }
}
static int ival(Rng &g) { int v = 1 + (int)g.below(8); return g.below(2) ? v : -v; }
void gen_entries(Matrix &m, uint32_t max_nnz) {
    uint32_t pat = choose(12); Rng g(seed32());
    uint64_t area = (uint64_t)m.rows * m.cols; uint32_t cap = (uint32_t)std::min<uint64_t>(max_nnz, area);
    auto add = [&](uint32_t r, uint32_t c) { if (m.e.size() < max_nnz) m.e.push_back({r, c, (double)ival(g)}); };
    switch (pat) {
    case 0: { uint32_t n = choose(cap + 1); for (uint32_t i = 0; i < n; i++) add(g.below(m.rows), g.below(m.cols)); break; }       // scattered, duplicates happen
    case 1: break;                                                                                                                 // empty
    case 2: for (uint32_t i = 0; i < std::min(m.rows, m.cols); i++) add(i, i); break;                                              // diagonal
    case 3: { uint32_t b = choose(4); for (uint32_t i = 0; i < m.rows; i++) for (uint32_t j = i > b ? i - b : 0; j <= i + b && j < m.cols; j++) add(i, j); break; }
    case 4: { uint32_t r = choose(m.rows); for (uint32_t j = 0; j < m.cols; j++) add(r, j); for (uint32_t i = 0; i < m.rows && g.below(3); i++) add(g.below(m.rows), g.below(m.cols)); break; } // one heavy row
    case 5: { uint32_t c = choose(m.cols); for (uint32_t i = 0; i < m.rows; i++) add(i, c); break; }                               // one heavy column
    case 6: for (uint32_t i = 0; i < m.rows; i++) for (uint32_t j = 0; j < m.cols; j++) add(i, j); break;                          // full
    case 7: { uint32_t r0 = choose(m.rows), c0 = choose(m.cols), h = range(1, 40), w = range(1, 40); for (uint32_t i = r0; i < m.rows && i < r0 + h; i++) for (uint32_t j = c0; j < m.cols && j < c0 + w; j++) if (g.below(4)) add(i, j); break; } // one dense patch
    case 8: { uint32_t n = range(1, 20), r = choose(m.rows), c = choose(m.cols); for (uint32_t i = 0; i < n; i++) add(r, c); break; }      // only duplicates
    case 9: { uint32_t d = 1 + choose(100); for (uint32_t i = 0; i < m.rows; i++) for (uint32_t j = 0; j < m.cols; j++) if (g.below(100) < d) add(i, j); break; } // given density
    case 10: { uint32_t step = range(2, 9); for (uint32_t i = step - 1; i < m.rows; i += step) for (uint32_t k = 0; k < 1 + g.below(6); k++) add(i, g.below(m.cols)); break; } // many empty rows
    default: { uint32_t n = choose(cap + 1); for (uint32_t i = 0; i < n; i++) { uint32_t a = g.below(m.rows), b = g.below(m.rows); add(std::min(a, std::min(b, g.below(m.rows))), g.below(m.cols)); } break; } // skewed to the top
    }
    if (choose(8) == 7) { uint32_t n = special_size(max_nnz); if (m.e.size() > n) m.e.resize(n); while (m.e.size() < n) add(g.below(m.rows), g.below(m.cols)); }
    if (choose(8) == 7 && !m.e.empty()) { uint32_t k = 1 + choose(5); for (uint32_t i = 0; i < k; i++) { Ent x = m.e[g.below((uint32_t)m.e.size())]; x.v = ival(g); add(x.r, x.c); } probe("duplicates"); }
    if (choose(6) == 5) { probe("zero_values"); for (auto &e : m.e) if (g.below(6) == 0) e.v = 0; }             // stored zeros are entries too
    if (choose(16) == 15) for (size_t i = m.e.size() / 2; i; i--) { Ent x = m.e[g.below((uint32_t)m.e.size())]; x.v = -x.v; add(x.r, x.c); }   // entries that cancel
    switch (choose(4)) {                     // entry order
    case 1: for (size_t i = m.e.size(); i > 1; i--) std::swap(m.e[i - 1], m.e[g.below((uint32_t)i)]); break;
    case 2: sort_row(m.e); break;
    case 3: std::stable_sort(m.e.begin(), m.e.end(), [](const Ent &a, const Ent &b) { return a.c != b.c ? a.c < b.c : a.r < b.r; }); break;
    }
}
Matrix gen_matrix(uint32_t max_dim, uint32_t max_nnz) {
    Matrix m; gen_shape(m, max_dim, max_dim); gen_entries(m, max_nnz); return m;
}
// Beyond 16 bits: dimensions, blocks and entry counts that small indices or counters do not hold.
Matrix gen_huge(int fmt) {
    Matrix m; probe("huge"); static const uint32_t d[] = {70000, 65536, 65537, 65535, 131072, 131073, 100000};
    auto other = [&] { if (fmt == CGBR2_FAC) return range(1, 8); switch (choose(4)) { case 0: return range(1, 8); case 1: return range(1, 300); case 2: return 1u; default: return d[choose(7)]; } };
    m.rows = d[choose(7)]; m.cols = other(); if (choose(10) == 9) { m.rows = (1u << (18 + choose(3))) + choose(3) - 1; m.cols = std::min(m.cols, 2000u); probe("a_million_rows"); } if (choose(2)) std::swap(m.rows, m.cols);
    if (fmt >= DENSE_C2 && fmt <= DENSE_PAR) { m.rows = std::min(m.rows, 130u); m.cols = std::min(m.cols, 130u); }
    if (fmt == COO1_C) { m.rows = std::min(m.rows, 65536u); m.cols = std::min(m.cols, 65536u); }     // this storage has 16-bit indices for the whole matrix
    Rng g(seed32()); uint32_t n = choose(6) == 5 ? 60000 + choose(80000) : choose(700), heavy = choose(3), hr = g.below(2) ? m.rows - 1 : g.below(m.rows), hc = g.below(2) ? m.cols - 1 : g.below(m.cols);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = g.below(m.rows), c = g.below(m.cols);
        if (g.below(12) == 0) r = m.rows - 1 - g.below(std::min(m.rows, 3u)); if (g.below(12) == 0) c = m.cols - 1 - g.below(std::min(m.cols, 3u));
        if (g.below(12) == 0) r = std::min(m.rows - 1, 65535 + g.below(3)); if (g.below(12) == 0) c = std::min(m.cols - 1, 65535 + g.below(3));
        if (heavy == 1 && g.below(2)) r = hr; if (heavy == 2 && g.below(2)) c = hc;
        m.e.push_back({r, c, (double)ival(g)});
    }
    cfg.step_cap = 2000000000ull; return m;
}
Matrix gen_scaled(int fmt, uint32_t max_dim, uint32_t max_nnz) { return choose(90) == 89 ? gen_huge(fmt) : gen_for_format(fmt, max_dim, max_nnz); }
Matrix gen_for_format(int fmt, uint32_t max_dim, uint32_t max_nnz) {
    Matrix m; uint32_t mr = max_dim, mc = max_dim;
    if (fmt == DENSE_C2 || fmt == DENSE_C3 || fmt == DENSE_SER || fmt == DENSE_PAR) mr = mc = std::min(max_dim, 130u);
    gen_shape(m, mr, mc); gen_entries(m, max_nnz); return m;
}
void sort_row(std::vector<Ent> &e) { std::stable_sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { return a.r != b.r ? a.r < b.r : a.c < b.c; }); }
std::vector<double> mul(const Matrix &m, const std::vector<double> &x) { std::vector<double> y(m.rows, 0.0); for (auto &e : m.e) y[e.r] += e.v * x[e.c]; return y; }
std::vector<uint32_t> gen_offsets(uint32_t dim, uint32_t maxb) {
    std::vector<uint32_t> o{0}; maxb = std::min(maxb, dim); auto next = [&](uint64_t n) { return (uint32_t)std::min<uint64_t>(dim, o.back() + n); };
    switch (choose(4)) {
    case 0: { uint32_t b = range(1, maxb); while (o.back() < dim) o.push_back(next(b)); break; }          // equal
    case 1: { Rng g(seed32()); uint32_t b = range(1, maxb); while (o.back() < dim) o.push_back(next(1ull + g.below(b))); break; } // ragged
    case 2: { while (o.back() < dim) o.push_back(next(maxb)); break; }                                  // as large as allowed
    default: { Rng g(seed32()); while (o.back() < dim) o.push_back(next(g.below(2) ? 1 : 1ull + g.below(maxb))); break; } // many single lines
    }
    return o;
}
int pick_fmt(int lo, int hi) { return lo + (int)choose(hi - lo); }
std::string shape_str(const Matrix &m) { char b[100]; snprintf(b, sizeof b, "%ux%u, %zu entries", m.rows, m.cols, m.e.size()); return b; }

const uint64_t MAX_GRID = 1500000;              // block cells a construction walks through
static void thin(std::vector<uint32_t> &o, const std::vector<uint32_t> &other, uint32_t maxb) {
    while (o.size() > 65 && (uint64_t)(o.size() - 1) * (other.size() - 1) > MAX_GRID) {          // merge neighbours, a legal partition stays legal
        std::vector<uint32_t> n{0}; for (size_t i = 1; i < o.size(); i++) if (i + 1 == o.size() || o[i + 1] - n.back() > std::min<uint32_t>(maxb, 64)) n.push_back(o[i]);
        if (n.size() == o.size()) return;
        o.swap(n);
    }
}
bool in_rows(const Ent &a, const Ent &b) { return a.r < b.r; }        // row order; nothing is said about columns
Built make_built(int fmt, Matrix src, int build_workers, bool random_fill) {
    Built b; b.src = std::move(src); Spec &s = b.spec; s.fmt = fmt;
    s.rows = b.src.rows; s.cols = b.src.cols; s.ent = b.src.e.data(); s.nnz = (uint32_t)b.src.e.size();
    s.dbl = b.dbl = choose(2) == 0;
    if (fmt < ROW_FMTS ? !!build_row_u64 : !!build_blk_u64) { s.index = choose(12) == 11; if (s.index) probe("index_64_bit"); }
    if (random_fill) { static const uint8_t f[] = {0xA5, 0x00, 0xFF, 0x01}; cfg.fill = f[choose(4)]; s.fill = choose(2); }   // a bool in the object is then false or true
    if (fmt >= ROW_FMTS) {
        bool small = fmt == CGBR8 || fmt == CGBR2_8; uint32_t maxb = small ? 256 : s.index && fmt != CGBR2_16 ? 1u << 18 : 1u << 16;     // 64-bit indices go with 32-bit indices inside a block
        s.mode = (int)choose(3); if (s.mode == BY_PICK && fmt == CGBR2_FAC) s.mode = BY_OFFSETS;
        if (fmt == CGBR2_FAC) s.mode = BY_OFFSETS;
        if (s.mode == BY_PICK) s.workers = build_workers;
        if (s.mode == BY_SIZE) {                        // zero: do not split
            s.nbr = choose(9) == 8 ? 0 : range(1, s.rows + 3); s.nbc = choose(9) == 8 ? 0 : range(1, s.cols + 3);
            while (s.nbr && s.nbc && (uint64_t)(s.rows / s.nbr + 1) * (s.cols / s.nbc + 1) > MAX_GRID) s.nbr *= 2, s.nbc *= 2;
        } else if (s.mode == BY_OFFSETS) {
            static const uint32_t bs[] = {8, 1, 2, 3, 16, 40, 256, 2000, 1u << 18};
            uint32_t k = bs[choose(9)]; if (fmt < CGBR16) maxb = 1u << 18;
            b.roff = gen_offsets(s.rows, std::min(maxb, k)); b.coff = gen_offsets(s.cols, std::min(maxb, bs[choose(9)]));
            thin(b.roff, b.coff, maxb); thin(b.coff, b.roff, maxb);
            s.roff = b.roff.data(); s.coff = b.coff.data(); s.nbr = (uint32_t)b.roff.size() - 1; s.nbc = (uint32_t)b.coff.size() - 1;
        }
    }
    if (fmt <= CSR2_C3 && choose(6) == 5) std::stable_sort(b.src.e.begin(), b.src.e.end(), in_rows);
    if (fmt <= CSR2_C3 && std::is_sorted(b.src.e.begin(), b.src.e.end(), in_rows)) s.sorted = choose(2);
    if (fmt == CSWR16_C2) { static const uint32_t w[] = {32, 1, 2, 7, 33, 64, 1000}; s.width = w[choose(7)]; }
    if (fmt == CSWR8_C3) { static const uint32_t w[] = {32, 1, 5, 16, 64, 255, 256}; s.width = w[choose(7)]; }
    note("%s<%s> %s blocks=%s(%u,%u) width=%u build-workers=%d", fmt_name[fmt], s.dbl ? "double" : "float", shape_str(b.src).c_str(),
         fmt < ROW_FMTS ? "-" : s.mode == BY_OFFSETS ? "offsets" : s.mode == BY_SIZE ? "size" : "auto", s.nbr, s.nbc, s.width, build_workers);
    return b;
}
void check_spmv(const Built &b, const char *cls, uint64_t xseed, int xmode, bool serial) {
    const Matrix &m = b.src; Rng g(xseed);
    std::vector<double> x(m.cols), y0(m.rows);
    for (auto &v : x) { int k = 1 + (int)g.below(900); v = g.below(2) ? k : -k; if (xmode == 1 && g.below(4)) v = 0; }
    for (auto &v : y0) v = (double)(int)g.below(2001) - 1000;
    Vec gx(b.dbl, m.cols), gy(b.dbl, m.rows);
    for (uint32_t i = 0; i < m.cols; i++) gx.set(i, x[i]);
    for (uint32_t i = 0; i < m.rows; i++) gy.set(i, y0[i]);
    if (cfg.race == RACE_RANGES) race_range(gy.p, gy.bytes());
    if (serial) { bool has; guest([&] { has = b.m->spmv_serial(gx.p, gy.p); }); if (!has) { gx.free_(); gy.free_(); return; } }
    else guest([&] { b.m->spmv(gx.p, gy.p); });
    std::vector<double> e = mul(m, x);
    for (uint32_t i = 0; i < m.rows; i++) {
        double got = gy.get(i), want = y0[i] + e[i];
        if (got != want) violate(cls, "%s%s: y[%u] = %.17g, expected %.17g (%s)", fmt_name[b.spec.fmt], serial ? " serial" : "", i, got, want, shape_str(m).c_str());
    }
    race_ranges_clear(); gx.free_(); gy.free_();
}

int any_workers() { static const int w[] = {4, 1, 2, 3, 5, 8, 13, 32}; return w[choose(8)]; }
void multiply_many(Built &b, const char *cls) {
    uint32_t reps = 1 + choose(3);
    for (uint32_t i = 0; i < reps; i++) {
        random_schedule_config(); set_workers(any_workers()); cfg.race = choose(3) == 2 ? RACE_ALL : RACE_RANGES;
        check_spmv(b, cls, seed32(), (int)choose(2));
    }
    if (choose(4) == 3) check_spmv(b, cls, seed32(), 0, true);
}

void history(Built &b) {
    if (choose(7) != 6 || b.src.rows > 20000 || b.src.cols > 20000 || b.src.e.size() > 20000) return;
    int w = cfg.workers, race = cfg.race, fails = cfg.nofail_left; uint8_t fill = cfg.fill; bool pre = cfg.preempt, reuse = cfg.reuse; uint32_t k = 1 + choose(2); probe("history");
    cfg.race = RACE_OFF; cfg.nofail_left = -1;
    for (uint32_t i = 0; i < k; i++) {
        Built h; set_workers(any_workers()); cfg.preempt = choose(5) == 4; cfg.reuse = choose(3) > 0; int fmt = b.spec.fmt;
        if (choose(4) == 3) {                         // a different one
            fmt = fmt < ROW_FMTS ? pick_fmt(0, ROW_FMTS) : pick_fmt(ROW_FMTS, ALL_FMTS); h = make_built(fmt, gen_for_format(fmt, 400, 600), cfg.workers, false);
        } else {                                      // same shape, size and partition, other positions and values
            h.src = b.src; h.dbl = b.dbl; h.spec = b.spec; h.spec.object = nullptr; h.spec.sorted = false; h.spec.ent = h.src.e.data(); Rng g(seed32()); uint32_t s = g.below(b.src.rows), t = g.below(b.src.cols);
            for (auto &e : h.src.e) e = {(e.r + s) % b.src.rows, (e.c + t) % b.src.cols, (double)ival(g)};
            if (choose(3) == 2) { uint32_t n = choose((uint32_t)h.src.e.size() + 1); h.src.e.resize(n); h.spec.nnz = n; }
            note("before it, one like it with other entries (%zu)", h.src.e.size());
        }
        if (i) { h.spec.object = h.spec.fmt == b.spec.fmt && h.dbl == b.dbl && h.spec.index == b.spec.index ? b.spec.object : nullptr; if (h.spec.object) b.spec.object = nullptr; }
        guest([&] { h.m = build_any(h.spec); });
        check_spmv(h, "wrong-result", seed32(), 0);
        switch (choose(3)) {
        case 0: break;
        case 1: guest([&] { h.m->release(); }); break;
        default: if (h.spec.fmt == b.spec.fmt && h.dbl == b.dbl && h.spec.index == b.spec.index && !b.spec.object) { guest([&] { b.spec.object = h.m->keep(); }); if (b.spec.object) { note("built into the object of a released one"); probe("object_reused"); } }
        }
    }
    set_workers(w); cfg.race = race; cfg.nofail_left = fails; cfg.fill = fill; cfg.preempt = pre; cfg.reuse = reuse;
}
