// C11, C16, C23: files written by the library have the documented contents and read back exactly.
#include "iou.h"
#include <cstdio>
#include <cstdlib>
using namespace sim; using namespace api;
static void stale(const Files &f, size_t n) { if (choose(3) == 2) for (int k = 0; k < f.n; k++) { std::string s; Rng g(seed32()); size_t len = n + 1 + g.below(300); for (size_t i = 0; i < len; i++) s += (char)g.next(); fs()[f.f[k]] = s; probe("stale_target"); } }
static void write_file(int fn, const Content &c, const char *cls) {
    IoJob j; Result r = call_io(fn, c, j);
    if (r.outcome != RETURNED || j.ret != 0) violate(cls, "%s on healthy storage: %s", io_name[fn], verdict(r, j).c_str());
    free_rec(j);
}
static void read_file(int fn, const Content &c, const char *cls) {
    tame_io(); IoJob j; Result r = call_io(fn, c, j);
    if (!success(r, j)) violate(cls, "%s of a good file on healthy storage: %s", io_name[fn], verdict(r, j).c_str());
    std::string d = compare_read(c, fn, j); if (!d.empty()) violate(cls, "%s: %s", io_name[fn], d.c_str());
    free_rec(j);
}
static void bytes(int fn, const Content &c, const char *cls) {
    Files f = files_of(fn);
    for (int k = 0; k < f.n; k++) {
        std::string w = expected_file(c, fn, k), &g = fs()[f.f[k]];
        if (w != g) { size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++; violate(cls, "%s: file %d has %zu bytes, the documented layout has %zu; first difference at byte %zu", io_name[fn], k, g.size(), w.size(), i); }
    }
}
static void unchanged(int fn, const std::map<std::string, std::string> &before) { if (fs() != before) violate("input-modified", "%s changed a file", io_name[fn]); }
static void c11() {
    io_schedule(); Content c = gen_content(1500, 0xffffffffu, 0xffffffffu, ANY_BITS);
    bool csr = choose(3) == 2; if (csr) { c.rows = std::min(c.rows, 3000u); for (auto &b : c.rec) b.r %= c.rows; sort_rows(c); }
    int w = choose(2) ? W_BIN_C3 : W_BIN_C2; note("%s<%s> %ux%u, %zu entries", io_name[w], c.dbl ? "double" : "float", c.rows, c.cols, c.rec.size());
    stale(files_of(w), bytes_bin(c).size()); tame_io(); write_file(w, c, "write-failed"); bytes(w, c, "layout");
    auto before = fs(); if (c.rec.size()) nontrivial();
    static const int rd[] = {R_BIN_C2, R_BIN_C3, R_ANY_C2, R_ANY_C3};
    read_file(rd[choose(4)], c, "not-read-back"); unchanged(R_BIN_C2, before);
    if (csr) { read_file(R_CSR, c, "csr-differs"); unchanged(R_CSR, before); }
}
static void c16() {
    io_schedule(); Content c = gen_content(1500, 0xfffffffeu, 0xfffffffeu, ANY_BITS);
    static const int ws[] = {W_3_C2, W_3_C3, W_ARR_IDX, W_ARR_VAL}; static const int rs[4][3] = {{R_3_C2, R_3_COO1, R_3_C3}, {R_3_C3, R_3_C2, R_3_COO1}, {R_ARR_IDX, R_ARR_IDX, R_ARR_IDX}, {R_ARR_VAL, R_ARR_VAL, R_ARR_VAL}};
    int k = choose(4), w = ws[k]; note("%s<%s> %zu entries", io_name[w], c.dbl ? "double" : "float", c.rec.size());
    Files f = files_of(w); stale(f, 12 * c.rec.size()); tame_io(); write_file(w, c, "write-failed"); bytes(w, c, "layout"); if (c.rec.size()) nontrivial();
    auto before = fs(); int r = rs[k][choose(3)]; read_file(r, c, "not-read-back"); unchanged(r, before);
    // arrays that disagree, are missing or fail
    for (int t = 0; t < 2; t++) {
        fs() = before; io_reset(); tame_io(); int which = choose(f.n), kind = choose(5); std::string &s = fs()[f.f[which]]; bool must = true; size_t ib = c.index ? 8 : 4, el = f.n == 3 ? (which == 2 ? (c.dbl ? 8 : 4) : ib) : w == W_ARR_VAL ? (c.dbl ? 8 : 4) : ib;
        if (kind == 0) { fs().erase(f.f[which]); fault("missing_file"); }
        else if (kind == 1) { if (s.empty()) return; size_t cut = choose((uint32_t)s.size()); if (f.n == 1 && cut % el == 0) must = false; s.resize(cut); fault("truncated_file"); }
        else if (kind == 2) { if (f.n == 1) { s += "x"; if (el == 1) must = false; } else { size_t extra = 1 + choose(3 * (uint32_t)el); Rng g(seed32()); for (size_t i = 0; i < extra; i++) s += (char)g.next(); } fault("grown_file"); }
        else if (kind == 3) { io.kind = IO_OPEN_FAIL; io.at = choose(f.n + 2); must = false; }
        else { io.kind = IO_READ_ERR; io.at = choose(3 + (uint32_t)(s.size() / (io.buf ? io.buf : 4096))); io.sticky = choose(2); must = false; }
        auto b2 = fs(); IoJob j; Result q = call_io(r, c, j);
        if (must && !failed(q, j)) violate("bad-arrays-accepted", "%s: array %d %s, yet it %s", io_name[r], which, kind == 0 ? "is missing" : kind == 1 ? "is cut short" : "has bytes too many", verdict(q, j).c_str());
        if (!failed(q, j)) {
            if (!success(q, j)) violate("bad-arrays-accepted", "%s: %s", io_name[r], verdict(q, j).c_str());
            Content d = c; if (kind == 1) d.rec.resize(s.size() / el);
            std::string e = compare_read(d, r, j); if (!e.empty()) violate("bad-arrays-accepted", "%s reported success with %s: %s", io_name[r], kind == 1 ? "a shorter array" : "a storage fault", e.c_str());
        }
        if (kind >= 3 && !iostat.fired && failed(q, j)) violate("spurious-failure", "%s failed although no fault happened: %s", io_name[r], verdict(q, j).c_str());
        if (fs() != b2) violate("input-modified", "%s changed a file", io_name[r]);
    }
}
// an independent reading of the text
static void parse(const std::string &t, const Content &c, const char *nm) {
    size_t p = 0, line = 0; auto next = [&](std::string &l) { if (p >= t.size()) return false; size_t e = t.find('\n', p); if (e == std::string::npos) { l = t.substr(p); p = t.size(); } else { l = t.substr(p, e - p); p = e + 1; } line++; return true; };
    std::string l; if (!next(l) || l != "%%MatrixMarket matrix coordinate real general") violate("bad-text", "%s: banner is \"%s\"", nm, l.c_str());
    do { if (!next(l)) violate("bad-text", "%s: no size line", nm); } while (l.empty() || l[0] == '%');
    long a, b, n; int used = 0; if (sscanf(l.c_str(), "%ld %ld %ld%n", &a, &b, &n, &used) != 3 || l.find_first_not_of(" \t\r", used) != std::string::npos || a != (long)c.rows || b != (long)c.cols || n != (long)c.rec.size()) violate("bad-text", "%s: size line \"%s\" for a %ux%u matrix with %zu entries", nm, l.c_str(), c.rows, c.cols, c.rec.size());
    for (size_t i = 0; i < c.rec.size(); i++) {
        if (!next(l)) violate("bad-text", "%s: only %zu of %zu entries in the file", nm, i, c.rec.size());
        char *e; unsigned long r = strtoul(l.c_str(), &e, 10), cc = strtoul(e, &e, 10); char *v0 = e; double v = strtod(e, &e); uint64_t bits = 0; if (c.dbl) memcpy(&bits, &v, 8); else { float f = (float)v; memcpy(&bits, &f, 4); }
        if (v0 == e || strspn(e, " \t\r") != strlen(e) || r != (unsigned long)c.rec[i].r + 1 || cc != (unsigned long)c.rec[i].c + 1 || bits != c.rec[i].v) violate("bad-text", "%s: entry %zu is \"%s\", expected (%u,%u,bits %llx)", nm, i, l.c_str(), c.rec[i].r + 1, c.rec[i].c + 1, (unsigned long long)c.rec[i].v);
    }
    while (next(l)) if (l.find_first_not_of(" \t\r") != std::string::npos) violate("bad-text", "%s: text after the last entry: \"%s\"", nm, l.c_str());
}
static void c23() {
    io_schedule(); Content c = gen_content(800, 0x7fffffffu, 0x7fffffffu, FINITE);
    int w = choose(2) ? W_MM_C3 : W_MM_C2; note("%s<%s> %ux%u, %zu entries", io_name[w], c.dbl ? "double" : "float", c.rows, c.cols, c.rec.size());
    stale(files_of(w), 40 * c.rec.size() + 100); tame_io(); write_file(w, c, "write-failed"); parse(fs()[files_of(w).f[0]], c, io_name[w]); if (c.rec.size()) nontrivial();
    auto before = fs(); int r = choose(2) ? R_MM_C3 : R_MM_C2; read_file(r, c, "not-read-back"); unchanged(r, before);
}
static Register r11({"C11", c11, "a run writes one matrix over a possibly existing file, checks every byte and reads it back; non-trivial when it has entries; distinct by hash of all events", "write_bin_COO, read_bin_COO, read_COO, read_bin_CSR, both coordinate formats, glibc stdio buffering", "disk under stdio (short transfers, buffer sizes), memory allocator"});
static Register r16({"C16", c16, "a run writes three arrays or one, checks every byte, reads them back, then damages or fails them twice; non-trivial when there are entries; distinct by hash of all events", "write_bin_COO and read_bin_COO with three files, write_bin_array, read_bin_array, get_file_size, glibc stdio buffering", "disk under stdio, memory allocator"});
static Register r23({"C23", c23, "a run writes one matrix as text, parses it independently and reads it back; non-trivial when it has entries; distinct by hash of all events", "write_mm_COO, read_mm_COO, mm_io, glibc stdio buffering", "disk under stdio, memory allocator"});
