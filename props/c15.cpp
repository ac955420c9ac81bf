// C15: blocked files; C17: damaged files of every kind.
#include "iou.h"
#include <cstdio>
using namespace sim; using namespace api;
static void c15() {
    if (choose(3) == 2) cfg.race = RACE_ALL;
    Content c = gen_blocked(choose(4) == 3 ? 1200 : 300, choose(4) == 3 ? 4000 : 900, 65536); Content src = c;
    note("blocked<%s> %ux%u, %zu entries, %zu x %zu blocks", c.dbl ? "double" : "float", c.rows, c.cols, c.rec.size(), c.roff.size() - 1, c.coff.size() - 1);
    set_workers(any_workers()); random_schedule_config(); tame_io(); IoJob j; Result r = call_io(W_BLK, c, j);
    if (r.outcome != RETURNED || j.ret != 0) violate("write-failed", "write_bin_blocked on healthy storage: %s", verdict(r, j).c_str());
    // what was written must be the source in block order
    block_sort(c); Content w = c; w.rec.assign(j.rec, j.rec + j.nnz); w.nblocks = j.nblocks;
    auto lt = [](const Bits &a, const Bits &b) { return a.r != b.r ? a.r < b.r : a.c != b.c ? a.c < b.c : a.v < b.v; };
    std::vector<Bits> a = w.rec, b = c.rec; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
    for (size_t i = 0; i < a.size(); i++) if (a[i].r != b[i].r || a[i].c != b[i].c || a[i].v != b[i].v || a[i].block != b[i].block) violate("wrong-blocks", "after sorting by block an entry is (%u,%u) in block %u, expected (%u,%u) in block %u", a[i].r, a[i].c, a[i].block, b[i].r, b[i].c, b[i].block);
    for (size_t i = 1; i < w.rec.size(); i++) if (w.rec[i].block < w.rec[i - 1].block) violate("wrong-blocks", "entries are not in block order at %zu", i);
    if (w.nblocks != c.nblocks) violate("wrong-blocks", "%u blocks counted, there are %u", w.nblocks, c.nblocks);
    std::string want = bytes_blk(w), &got = fs()["/d/m.block"]; size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
    if (want != got) violate("layout", "write_bin_blocked: file has %zu bytes, the documented layout has %zu; first difference at byte %zu", got.size(), want.size(), i);
    free_rec(j); auto before = fs(); if (c.rec.size()) nontrivial();
    static const int rd[] = {R_BLK_CSBR, R_BLK_CSBR2, R_BLK_CGBR16, R_BLK_CGBR8};
    for (int t = 0; t < 2; t++) {
        int fn = rd[choose(4)]; if (!reader_ok_for(fn, c)) fn = R_BLK_CSBR;
        set_workers(any_workers()); random_schedule_config(); tame_io(); r = call_io(fn, w, j);
        if (!success(r, j)) violate("not-read-back", "%s of a good file on healthy storage: %s", io_name[fn], verdict(r, j).c_str());
        std::string d = compare_read(w, fn, j); if (!d.empty()) violate("not-read-back", "%s: %s", io_name[fn], d.c_str());
        check_blocked(w, fn, j, "wrong-y");
        if (fs() != before) violate("input-modified", "%s changed a file", io_name[fn]);
    }
}
static void damage(std::string &s, int fam, bool dbl, size_t nnz, size_t iw) {
    Rng g(seed32()); uint32_t n = 1 + choose(4);
    static const uint32_t ext[] = {0, 1, 2, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x40000000u, 65536, 0xfffffffeu};
    auto put = [&](std::string &t, size_t at, uint64_t v) { if (at + iw <= t.size()) memcpy(&t[at], &v, iw); };
    auto any = [&](uint64_t v) -> uint64_t { if (iw == 4) return v; switch (g.below(5)) { case 0: return v << 32; case 1: return v | (uint64_t)g.below(4) << 32; case 2: return ~0ull / (1ull + g.below(24)) + g.below(3); case 3: return (uint64_t)-(int64_t)v; default: return v; } };
    for (uint32_t i = 0; i < n; i++) {
        size_t len = s.size();
        switch (choose(11)) {
        case 0: if (len) s[g.below((uint32_t)len)] ^= (char)(1 << g.below(8)); break;
        case 1: if (len) s[g.below((uint32_t)len)] = (char)g.next(); break;
        case 2: if (len) s[g.below((uint32_t)std::min<size_t>(len, fam == F_MM ? 90 : 6 * iw))] = (char)g.next(); break;
        case 3: s.insert(g.below((uint32_t)len + 1), std::string(1 + g.below(6), (char)g.next())); break;
        case 4: if (len) s.erase(g.below((uint32_t)len), 1 + g.below(12)); break;
        case 5: if (len > 8) { size_t k = 1 + g.below((uint32_t)std::min<size_t>(len / 2, 60)), p = g.below((uint32_t)(len - k + 1)); std::string d = s.substr(p, k); s.insert(g.below((uint32_t)len + 1), d); } break;
        case 6: s.resize(g.below((uint32_t)len + 1)); break;
        case 7: if (fam != F_MM) put(s, iw * g.below(fam == F_BLK ? 6 : 3), any(g.below(2) ? ext[g.below(9)] : g.below(600))); else { static const char *const w[] = {"99999999999999999999", "-1", "0", "4294967296", "2147483647", "1e9", "nan", "%", "\n", "symmetric", "%%MatrixMarket matrix coordinate pattern symmetric\n"}; s.insert(g.below((uint32_t)std::min<size_t>(len, 120) + 1), w[g.below(11)]); } break;
        case 8: { // an index of a record
            if (fam == F_BIN && nnz) put(s, 3 * iw + iw * g.below((uint32_t)(2 * nnz)), any(g.below(2) ? ext[g.below(9)] : g.below(2000)));
            else if (fam == F_BLK && nnz) put(s, 6 * iw + (size_t)g.below((uint32_t)nnz) * (3 * iw + (dbl ? 8 : 4)) + iw * g.below(3), any(g.below(2) ? ext[g.below(9)] : g.below(2000)));
            else if (fam == F_3 && nnz) put(s, iw * g.below((uint32_t)nnz), any(ext[g.below(9)]));
            else if (fam == F_MM && len) { size_t p = g.below((uint32_t)len); s[p] = "0123456789 \n.-+eE"[g.below(17)]; } break; }
        case 9: { // swap two records
            size_t rs = fam == F_BLK ? 3 * iw + (dbl ? 8 : 4) : iw, h = fam == F_BLK ? 6 * iw : fam == F_BIN ? 3 * iw : 0; if (nnz > 1 && h + nnz * rs <= len) { size_t x = h + rs * g.below((uint32_t)nnz), y = h + rs * g.below((uint32_t)nnz); for (size_t k = 0; k < rs; k++) std::swap(s[x + k], s[y + k]); } break; }
        default: if (g.below(8) == 0) { size_t m = g.below(3000); s.clear(); for (size_t k = 0; k < m; k++) s += (char)(fam == F_MM ? (g.below(3) ? 32 + g.below(95) : "0123456789 \n"[g.below(12)]) : (char)g.next()); if (fam == F_MM && g.below(2)) s = "%%MatrixMarket matrix coordinate real general\n" + s; } else if (fam == F_MM) { s.insert(g.below((uint32_t)len + 1), std::string(g.below(3000), "1 a%\n\0 x"[g.below(8)])); } break;
        }
    }
}
static const int readers[] = {R_BIN_C2, R_BIN_C3, R_CSR, R_MM_C2, R_MM_C3, R_3_COO1, R_3_C2, R_3_C3, R_ARR_IDX, R_ARR_VAL, R_BLK_CSBR, R_BLK_CSBR2, R_BLK_CGBR16, R_BLK_CGBR8};
static void c17() {
    io_schedule(); int fn = readers[choose(14)]; Family fam = family(fn); Content c;
    if (fam == F_BLK) { c = gen_blocked(300, 300, fn == R_BLK_CGBR8 ? 256 : 65536); block_sort(c); }
    else { c = gen_content(200, 3000, 3000, FINITE); if (fn == R_CSR) sort_rows(c); }
    if (fam == F_MM) { tame_io(); io = IoPlan(); IoJob j; call_io(W_MM_C2, c, j); free_rec(j); if (choose(3) == 2) { std::string &s = fs()[files_of(fn).f[0]]; size_t p = s.find("general"); if (p != std::string::npos) s.replace(p, 7, "symmetric"); } } else put_files(c, fn);
    Files f = files_of(fn); auto good = fs();
    for (int t = 0; t < 3; t++) {
        io_reset(); fs() = good; tame_io(); cfg.malloc_limit = choose(2) ? 1 << 20 : 1 << 16; int k = choose(f.n); damage(fs()[f.f[k]], fam, c.dbl, c.rec.size(), c.index ? 8 : 4); if (f.n == 3 && choose(2)) damage(fs()[f.f[choose(3)]], fam, c.dbl, c.rec.size(), c.index ? 8 : 4);
        fault("damaged_file"); if (choose(5) == 4) { io.kind = IO_READ_ERR; io.at = choose(20); io.sticky = choose(2); }
        auto before = fs(); if (!cfg.preempt) random_schedule_config(); IoJob j; Result r = call_io(fn, c, j);
        if (fs() != before) violate("input-modified", "%s changed a file", io_name[fn]);
        if (r.outcome == EXITED && r.code == 0) violate("no-verdict", "%s ended the process with status 0", io_name[fn]);
        if (success(r, j)) {
            probe("damage_accepted");
            if (fam == F_BLK) {
                cfg.malloc_limit = (size_t)1 << 28; if (j.shape[0] != c.rows || j.shape[1] != c.cols) violate("bad-index", "%s accepted a %ux%u matrix for a %ux%u partition", io_name[fn], j.rows, j.cols, c.rows, c.cols);
                uint64_t n = 0; memcpy(&n, &before[f.f[0]][c.index ? 16 : 8], c.index ? 8 : 4); if (j.mat->nonzeros() != n) violate("entries-missing", "%s reports %llu entries, the header %llu", io_name[fn], (unsigned long long)j.mat->nonzeros(), (unsigned long long)n);
                Vec x(c.dbl, c.cols), y(c.dbl, c.rows); for (uint32_t i = 0; i < c.cols; i++) x.set(i, 1); for (uint32_t i = 0; i < c.rows; i++) y.set(i, 0);
                guest([&] { j.mat->spmv(x.p, y.p); }); x.free_(); y.free_();          // every access is checked
            } else if (fam != F_ARR_IDX && fam != F_ARR_VAL) {
                if (j.outside) violate("bad-index", "%s: an index outside the %llux%llu matrix", io_name[fn], (unsigned long long)j.shape[0], (unsigned long long)j.shape[1]);
                if (!c.index) for (uint32_t i = 0; i < j.nnz; i++) if (j.rec[i].r >= j.rows || j.rec[i].c >= j.cols) violate("bad-index", "%s: entry %u is (%u,%u) in a %ux%u matrix", io_name[fn], i, j.rec[i].r, j.rec[i].c, j.rows, j.cols);
                if (fn == R_CSR && j.ptr_total != j.nnz) violate("entries-missing", "%s: row pointers cover %llu of %u entries", io_name[fn], (unsigned long long)j.ptr_total, j.nnz);
                if (fam == F_BIN) { const std::string &s = before[f.f[0]]; size_t iw = c.index ? 8 : 4; uint64_t h[3] = {0, 0, 0}; if (s.size() >= 3 * iw) for (int k = 0; k < 3; k++) memcpy(&h[k], s.data() + k * iw, iw); typedef unsigned long long L; if (j.shape[0] != h[0] || j.shape[1] != h[1] || j.shape[2] != h[2] || s.size() < 3 * iw + (size_t)j.nnz * (2 * iw + (c.dbl ? 8 : 4))) violate("entries-missing", "%s reports %llux%llu with %llu entries, the header says %llux%llu with %llu and the file has %zu bytes", io_name[fn], (L)j.shape[0], (L)j.shape[1], (L)j.shape[2], (L)h[0], (L)h[1], (L)h[2], s.size()); }
            }
            nontrivial();
        }
        if (r.outcome != RETURNED) close_all_silently();
        free_rec(j);
    }
}
static Register r15({"C15", c15, "a run writes one blocked file, checks every byte, reads it into two formats and multiplies them under random schedules; non-trivial when there are entries; distinct by hash of all events", "block sorting, write_bin_blocked, four read_bin_blocked, multiplication, glibc stdio buffering", "disk under stdio (short transfers), OpenMP runtime, memory allocator (dirty memory)"});
static Register r17({"C17", c17, "a run damages one file three times and reads it; non-trivial when a fault fired; distinct by hash of all events", "all readers, mm_io, multiplication of what was accepted, glibc stdio", "disk under stdio, memory allocator (bounded size), OpenMP runtime"});
