#include "iou.h"
#include <cstdio>
#include <cstring>
using namespace sim; using namespace api;
uint64_t any_value(Rng &g, bool dbl, int kind) {
    uint64_t b = 0;
    if (kind == SMALL_INT) { int v = 1 + (int)g.below(8); double d = g.below(2) ? v : -v; if (dbl) memcpy(&b, &d, 8); else { float f = (float)d; memcpy(&b, &f, 4); } return b; }
    static const double sp[] = {0.0, -0.0, 1.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1.0 / 3.0, 123456789.123456789, 1e22, 9007199254740993.0, -1e-310};
    static const float sf[] = {0.0f, -0.0f, 1.0f, 1e-45f, -1.17549435e-38f, 3.40282347e38f, 0.1f, 1.0f / 3.0f, 16777217.0f, 1e10f, 1e-40f, -7.0f};
    if (g.below(4) == 0) { int k = g.below(12); if (dbl) memcpy(&b, &sp[k], 8); else memcpy(&b, &sf[k], 4); return b; }
    for (;;) {
        b = g.next(); if (!dbl) b &= 0xffffffffu;
        if (g.below(3) == 0) { if (dbl) b = (b & 0x800fffffffffffffull) | ((uint64_t)(1023 - 40 + g.below(80)) << 52); else b = (b & 0x807fffffu) | ((127 - 20 + g.below(40)) << 23); }
        if (kind == ANY_BITS) { double d; float f; memcpy(&d, &b, 8); memcpy(&f, &b, 4); if (dbl ? d == d : f == f) return b; continue; }   // a signalling NaN may be quieted by a register move
        double d; float f; memcpy(&d, &b, 8); memcpy(&f, &b, 4); if (dbl ? std::isfinite(d) : std::isfinite(f)) return b;
    }
}
static bool big_content;                                                // this run's files have thousands of records
static uint32_t many() { static const uint32_t b[] = {4096, 8192, 16384, 32768, 65536, 20000}; probe("thousands_of_records"); cfg.step_cap = 2000000000ull; uint32_t n = b[choose(choose(8) == 7 ? 6 : 3)]; if (choose(30) == 29) { n = 1u << (17 + choose(5)); probe("millions_of_records"); cfg.skip_mean = 20000; } switch (choose(4)) { case 0: return n; case 1: return n + 1 + choose(5); case 2: return n - 1 - choose(5); default: return n / 2 + choose(n); } }
static void wide(Content &c) { c.index = run_io_u64 && choose(10) == 9; if (c.index) probe("index_64_bit"); }
Content gen_content(uint32_t max_nnz, uint32_t mr, uint32_t mc, int values) {
    Content c; big_content = false; c.dbl = choose(2) == 0; wide(c);
    auto dim = [&](uint32_t m) { static const uint32_t d[] = {5, 1, 2, 40, 300, 70000, 0x7fffffffu, 0xffffffffu}; uint32_t x = std::min(m, d[choose(8)]); return choose(2) ? x : range(1, x < 0xffffffffu ? x : 0xfffffffeu); };
    c.rows = dim(mr); c.cols = dim(mc);
    static const uint32_t ns[] = {6, 0, 1, 2, 20, 90, 400, 1500}; uint32_t n = std::min(max_nnz, ns[choose(8)]); if (n > 2 && choose(2)) n = choose(n + 1); if (choose(10) == 9) n = special_size(max_nnz);
    if (max_nnz >= 200 && choose(150) == 149) { n = many(); big_content = true; }
    Rng g(seed32());
    for (uint32_t i = 0; i < n; i++) {
        Bits b{g.below(c.rows), g.below(c.cols), any_value(g, c.dbl, values), 0};
        if (g.below(8) == 0) b.r = c.rows - 1; if (g.below(8) == 0) b.c = c.cols - 1; if (g.below(16) == 0) b.r = 0;
        c.rec.push_back(b);
    }
    if (choose(3) == 2) sort_rows(c);
    return c;
}
Content from_matrix(const Matrix &m, bool dbl) {
    Content c; c.dbl = dbl; c.rows = m.rows; c.cols = m.cols;
    for (auto &e : m.e) { Bits b{e.r, e.c, 0, 0}; if (dbl) memcpy(&b.v, &e.v, 8); else { float f = (float)e.v; memcpy(&b.v, &f, 4); } c.rec.push_back(b); }
    return c;
}
Matrix to_matrix(const Content &c) {
    Matrix m; m.rows = c.rows; m.cols = c.cols;
    for (auto &b : c.rec) { double d; float f; memcpy(&d, &b.v, 8); memcpy(&f, &b.v, 4); m.e.push_back({b.r, b.c, c.dbl ? d : (double)f}); }
    return m;
}
Content gen_blocked(uint32_t max_dim, uint32_t max_nnz, uint32_t max_block) {
    Matrix m; big_content = max_nnz >= 200 && choose(150) == 149;
    if (big_content) { uint32_t n = many(); if (choose(2)) m = gen_huge(api::CSR_C2); else gen_shape(m, 5000, 5000); Rng g(seed32()); m.e.clear(); for (uint32_t i = 0; i < n; i++) m.e.push_back({g.below(m.rows), g.below(m.cols), (double)((1 + (int)g.below(8)) * (g.below(2) ? 1 : -1))}); }
    else m = gen_matrix(max_dim, max_nnz);
    Content c = from_matrix(m, choose(2) == 0); wide(c);
    static const uint32_t bs[] = {8, 1, 2, 3, 16, 40, 256, 2000};
    do { c.roff = gen_offsets(m.rows, std::min(max_block, bs[choose(8)])); c.coff = gen_offsets(m.cols, std::min(max_block, bs[choose(8)])); } while ((uint64_t)c.roff.size() * c.coff.size() > 25000000);
    return c;
}
bool row_sorted(const Content &c) { for (size_t i = 1; i < c.rec.size(); i++) if (c.rec[i].r < c.rec[i - 1].r) return false; return true; }
void sort_rows(Content &c) { std::stable_sort(c.rec.begin(), c.rec.end(), [](const Bits &a, const Bits &b) { return a.r != b.r ? a.r < b.r : a.c < b.c; }); }
static uint32_t blkof(const std::vector<uint32_t> &o, uint32_t i) { return (uint32_t)(std::upper_bound(o.begin(), o.end() - 1, i) - o.begin() - 1); }
void block_sort(Content &c) {
    uint32_t nbc = (uint32_t)c.coff.size() - 1;
    for (auto &b : c.rec) b.block = blkof(c.roff, b.r) * nbc + blkof(c.coff, b.c);
    std::stable_sort(c.rec.begin(), c.rec.end(), [](const Bits &a, const Bits &b) { return a.block != b.block ? a.block < b.block : a.r != b.r ? a.r < b.r : a.c < b.c; });
    c.nblocks = 0; for (size_t i = 0; i < c.rec.size(); i++) c.nblocks += i == 0 || c.rec[i].block != c.rec[i - 1].block;
}
static int iw = 4;                              // bytes of an index
static void u32(std::string &s, uint64_t v) { s.append((const char *)&v, iw); }
static void val(std::string &s, uint64_t v, bool d) { s.append((const char *)&v, d ? 8 : 4); }
std::string bytes_bin(const Content &c) {
    std::string s; iw = c.index ? 8 : 4; u32(s, c.rows); u32(s, c.cols); u32(s, (uint32_t)c.rec.size());
    for (auto &b : c.rec) u32(s, b.r); for (auto &b : c.rec) u32(s, b.c); for (auto &b : c.rec) val(s, b.v, c.dbl); return s;
}
std::string bytes_idx(const Content &c, bool col) { std::string s; iw = c.index ? 8 : 4; for (auto &b : c.rec) u32(s, col ? b.c : b.r); return s; }
std::string bytes_val(const Content &c) { std::string s; for (auto &b : c.rec) val(s, b.v, c.dbl); return s; }
std::string bytes_blk(const Content &c) {
    std::string s; iw = c.index ? 8 : 4; u32(s, c.rows); u32(s, c.cols); u32(s, (uint32_t)c.rec.size()); u32(s, (uint32_t)c.roff.size() - 1); u32(s, (uint32_t)c.coff.size() - 1); u32(s, c.nblocks);
    for (auto &b : c.rec) { u32(s, b.block); u32(s, b.r); u32(s, b.c); val(s, b.v, c.dbl); } return s;
}
Family family(int fn) {
    switch (fn) {
    case W_BIN_C2: case W_BIN_C3: case R_BIN_C2: case R_BIN_C3: case R_ANY_C2: case R_ANY_C3: case R_CSR: return F_BIN;
    case W_MM_C2: case W_MM_C3: case R_MM_C2: case R_MM_C3: return F_MM;
    case W_3_C2: case W_3_C3: case R_3_COO1: case R_3_C2: case R_3_C3: return F_3;
    case W_ARR_IDX: case R_ARR_IDX: return F_ARR_IDX;
    case W_ARR_VAL: case R_ARR_VAL: return F_ARR_VAL;
    default: return F_BLK;
    }
}
static uint32_t name_style;                     // names with the other suffix somewhere in them
Files files_of(int fn) {
    static const char *const bin[] = {"/d/m.bin", "/d/m.mtx.bin", "/d.mtx/m.bin", "/d/.bin"}, *const mm[] = {"/d/m.mtx", "/d/m.bin.mtx", "/d.bin/m.mtx", "/d/.mtx"};
    switch (family(fn)) {
    case F_BIN: return {{bin[name_style], "", ""}, 1};
    case F_MM: return {{mm[name_style], "", ""}, 1};
    case F_3: return {{"/d/r.arr", "/d/c.arr", "/d/v.arr"}, 3};
    case F_ARR_IDX: case F_ARR_VAL: return {{"/d/a.arr", "", ""}, 1};
    default: return {{"/d/m.block", "", ""}, 1};
    }
}
std::string expected_file(const Content &c, int fn, int k) {
    switch (family(fn)) {
    case F_BIN: return bytes_bin(c);
    case F_3: return k == 0 ? bytes_idx(c, false) : k == 1 ? bytes_idx(c, true) : bytes_val(c);
    case F_ARR_IDX: return bytes_idx(c, false);
    case F_ARR_VAL: return bytes_val(c);
    case F_BLK: return bytes_blk(c);
    default: return "";
    }
}
void put_files(const Content &c, int fn) { Files f = files_of(fn); for (int k = 0; k < f.n; k++) fs()[f.f[k]] = expected_file(c, fn, k); }
Result call_io(int fn, const Content &c, IoJob &j) {
    Files f = files_of(fn); j = IoJob(); j.fn = fn; j.dbl = c.dbl; j.index = c.index; j.f1 = f.f[0]; j.f2 = f.f[1]; j.f3 = f.f[2]; j.fill = cfg.fill;
    if (is_writer(fn)) { j.rows = c.rows; j.cols = c.cols; j.nnz = (uint32_t)c.rec.size(); j.rec = garray(c.rec); }
    if (family(fn) == F_BLK) { j.nbr = (uint32_t)c.roff.size() - 1; j.nbc = (uint32_t)c.coff.size() - 1; j.roff = c.roff.data(); j.coff = c.coff.data(); }
    return guarded([&] { guest([&] { run_io(j); }); });
}
std::string verdict(const Result &r, const IoJob &j) {
    char b[160];
    if (r.outcome == RETURNED) snprintf(b, sizeof b, "returned %d", j.ret);
    else snprintf(b, sizeof b, "%s %d %s", outcome_name(r.outcome), r.code, r.msg.substr(0, 90).c_str());
    return b;
}
std::string compare_read(const Content &c, int fn, const IoJob &j) {
    char b[300]; Family f = family(fn); if (f != F_ARR_IDX && f != F_ARR_VAL && (j.shape[0] != j.rows || j.shape[1] != j.cols || j.shape[2] != j.nnz)) return "a shape beyond 32 bits"; if (j.outside) return "an index outside the matrix";
    if (j.nnz != c.rec.size()) { snprintf(b, sizeof b, "%u entries, expected %zu", j.nnz, c.rec.size()); return b; }
    if (f == F_BLK) {
        if (j.rows != c.rows || j.cols != c.cols || j.nblocks != c.nblocks) { snprintf(b, sizeof b, "%ux%u with %u blocks, expected %ux%u with %u", j.rows, j.cols, j.nblocks, c.rows, c.cols, c.nblocks); return b; }
        return "";
    }
    uint32_t R = c.rows, C = c.cols;
    if (f == F_3) { R = C = 1; for (auto &e : c.rec) { R = std::max(R, e.r + 1); C = std::max(C, e.c + 1); } }
    if ((f == F_BIN || f == F_MM || (f == F_3 && !c.rec.empty())) && (j.rows != R || j.cols != C)) { snprintf(b, sizeof b, "shape %ux%u, expected %ux%u", j.rows, j.cols, R, C); return b; }
    if (fn == R_CSR && j.ptr_total != c.rec.size()) { snprintf(b, sizeof b, "row pointers cover %llu entries, expected %zu", (unsigned long long)j.ptr_total, c.rec.size()); return b; }
    for (uint32_t i = 0; i < j.nnz; i++) {
        const Bits &x = j.rec[i], &y = c.rec[i];
        bool same = f == F_ARR_IDX ? x.r == y.r : f == F_ARR_VAL ? x.v == y.v : x.r == y.r && x.c == y.c && x.v == y.v;
        if (!same) { snprintf(b, sizeof b, "entry %u is (%u,%u,%llx), expected (%u,%u,%llx)", i, x.r, x.c, (unsigned long long)x.v, y.r, y.c, (unsigned long long)y.v); return b; }
    }
    return "";
}
static uint32_t maxblock(const Content &c) { uint32_t m = 0; for (size_t i = 1; i < c.roff.size(); i++) m = std::max(m, c.roff[i] - c.roff[i - 1]); for (size_t i = 1; i < c.coff.size(); i++) m = std::max(m, c.coff[i] - c.coff[i - 1]); return m; }
bool reader_ok_for(int fn, const Content &c) {
    if (fn == R_CSR) return row_sorted(c) && c.rows <= 5000;
    if (fn == R_BLK_CGBR8) return maxblock(c) <= 256;
    if (fn == R_BLK_CGBR16) return maxblock(c) <= 65536;
    if (fn >= R_BLK_CSBR) return true;
    return true;
}
void io_schedule() {
    name_style = choose(12) == 11 ? 1 + choose(3) : 0; if (name_style) probe("odd_file_names");
    cfg.preempt = choose(3) == 2; if (!cfg.preempt) return;
    random_schedule_config(); set_workers(any_workers()); cfg.race = RACE_ALL;
}
void tame_io() {
    io = IoPlan(); io.short_ops = choose(2) == 1; static const int bufs[] = {0, 1, 3, 16, 64, 100, 512, 1000}; io.buf = bufs[choose(8)]; if (big_content && io.buf && io.buf < 100) io.buf = 512;
    static const uint8_t f[] = {0xA5, 0x00, 0xFF, 0x01}; cfg.fill = f[choose(4)];
}
void free_rec(IoJob &j) { if (j.rec) gfree(j.rec); j.rec = nullptr; }
void check_blocked(const Content &c, int fn, IoJob &j, const char *cls) {
    Built b; b.src = to_matrix(c); b.dbl = c.dbl; b.m = j.mat; b.spec.dbl = c.dbl;
    b.spec.fmt = fn == R_BLK_CSBR ? CSBR_C3 : fn == R_BLK_CSBR2 ? CSBR2_C3 : fn == R_BLK_CGBR16 ? CGBR16 : CGBR8;
    if (j.mat->nonzeros() != c.rec.size()) violate(cls, "%s reports %llu entries, file has %zu", io_name[fn], (unsigned long long)j.mat->nonzeros(), c.rec.size());
    uint64_t bc[6], nc[6];
    if (j.mat->stats(bc, nc)) { uint64_t B = 0, N = 0; for (int i = 0; i < 6; i++) { B += bc[i]; N += nc[i]; } if (B != c.nblocks || N != c.rec.size()) violate(cls, "%s: statistics add up to %llu blocks and %llu entries, file has %u and %zu", io_name[fn], (unsigned long long)B, (unsigned long long)N, c.nblocks, c.rec.size()); }
    if (j.mat->balanced() >= 0 && choose(3) == 2) { bool want = choose(2); if (want || fn == R_BLK_CSBR) j.mat->set_balanced(want); }   // Cgbr builds its chunks only when it needs them
    multiply_many(b, cls);
}
