// C12, C14, C18: storage faults at any operation.
#include "iou.h"
#include <cstdio>
using namespace sim; using namespace api;
static Content content_for(int fn, uint32_t maxn) {
    if (family(fn) == F_BLK) { Content c = gen_blocked(300, maxn, fn == R_BLK_CGBR8 ? 256 : 65536); if (!is_writer(fn)) block_sort(c); return c; }
    Content c = gen_content(maxn, family(fn) == F_MM ? 0x7fffffffu : 0xfffffffeu, family(fn) == F_MM ? 0x7fffffffu : 0xfffffffeu, family(fn) == F_MM ? FINITE : ANY_BITS);
    if (fn == R_CSR) { c.rows = std::min(c.rows, 3000u); for (auto &b : c.rec) b.r %= c.rows; sort_rows(c); }
    return c;
}
static void correct(const Content &c, int fn, IoJob &j, const char *cls, const char *why) {
    std::string d = compare_read(c, fn, j); if (!d.empty()) violate(cls, "%s reported success %s: %s", io_name[fn], why, d.c_str());
    if (j.mat) { int w = cfg.workers; check_blocked(c, fn, j, cls); set_workers(w); }
}
static const int readers12[] = {R_BIN_C2, R_BIN_C3, R_ANY_C2, R_ANY_C3, R_CSR, R_ARR_IDX, R_ARR_VAL, R_BLK_CSBR, R_BLK_CSBR2, R_BLK_CGBR16, R_BLK_CGBR8};
static void c12() {
    io_schedule(); int fn = readers12[choose(11)]; Content c = content_for(fn, 700); Files f = files_of(fn); Family fam = family(fn);
    put_files(c, fn); std::string whole = fs()[f.f[0]]; size_t el = fam == F_ARR_VAL ? (c.dbl ? 8 : 4) : c.index ? 8 : 4; bool arr = fam == F_ARR_IDX || fam == F_ARR_VAL;
    note("%s<%s> %ux%u, %zu entries, %zu bytes", io_name[fn], c.dbl ? "double" : "float", c.rows, c.cols, c.rec.size(), whole.size());
    tame_io(); IoPlan tame = io; IoJob j; Result r = call_io(fn, c, j);
    if (!success(r, j)) violate("spurious-failure", "%s of a complete file on healthy storage: %s", io_name[fn], verdict(r, j).c_str());
    correct(c, fn, j, "wrong-contents", "on a complete file"); free_rec(j); long reads = iostat.reads, opens = iostat.opens;
    for (int t = 0; t < 3; t++) {
        io_reset(); io = tame; fs()[f.f[0]] = whole; if (!cfg.preempt) random_schedule_config();
        int kind = choose(6); Content w = c; bool must = false; const char *why = "";
        if (kind <= 1) {                                  // cut short
            if (whole.empty()) continue;
            size_t cut = choose(3) ? choose((uint32_t)whole.size()) : choose((uint32_t)std::min<size_t>(whole.size(), 40)); if (choose(4) == 3) cut = whole.size() - 1 - choose((uint32_t)std::min<size_t>(whole.size(), 9));
            fs()[f.f[0]].resize(cut); must = !arr || cut % el; if (arr) w.rec.resize(cut / el); why = "on a file that is cut short"; fault("truncated_file");
        } else if (kind == 2) { io.kind = IO_READ_ERR; io.at = reads ? choose((uint32_t)reads) : 0; io.sticky = choose(2) == 0; why = "although reading failed"; }
        else if (kind == 5) { io.unseekable = true; why = "of a file that cannot be rewound"; }
        else if (kind == 3) { io.kind = IO_OPEN_FAIL; io.at = choose((uint32_t)opens); must = true; why = "although opening failed"; }
        else {                                            // what a writer that died leaves behind
            if (arr) continue;
            int wr = fam == F_BLK ? W_BLK : choose(2) ? W_BIN_C3 : W_BIN_C2; Content src = c; fs()[f.f[0]] = choose(2) ? "" : "an older file"; Rng g(seed32());
            IoPlan p = tame; long nops = 2 + (long)(whole.size() / (p.buf ? p.buf : 4096)); p.kind = IO_CRASH; p.at = choose((uint32_t)nops + 2); io = p; IoJob q; Result rr = call_io(wr, src, q);
            if (rr.outcome != CRASHED) { continue; }
            close_all_silently(); const std::string &left = fs()[f.f[0]]; must = left != whole; io_reset(); io = tame; why = "on a file whose writer died";
        }
        r = call_io(fn, c, j);
        if (must && !failed(r, j)) violate("incomplete-accepted", "%s %s: %s (%zu of %zu bytes)", io_name[fn], why, verdict(r, j).c_str(), fs()[f.f[0]].size(), whole.size());
        if (!must && !failed(r, j)) { if (!success(r, j)) violate("incomplete-accepted", "%s %s: %s", io_name[fn], why, verdict(r, j).c_str()); correct(w, fn, j, "incomplete-accepted", why); }
        if (!must && failed(r, j) && !iostat.fired && kind >= 2) violate("spurious-failure", "%s failed although no fault happened: %s", io_name[fn], verdict(r, j).c_str());
        free_rec(j);
    }
}
// what the file must hold when a text writer claims success: compare with a fault-free run
static void c14() {
    io_schedule(); int fn = choose(IO_WRITERS); Content c = content_for(fn, 700); Files f = files_of(fn);
    note("%s<%s> %ux%u, %zu entries", io_name[fn], c.dbl ? "double" : "float", c.rows, c.cols, c.rec.size());
    std::map<std::string, std::string> start; if (choose(3) == 2) for (int k = 0; k < f.n; k++) { Rng g(seed32()); std::string s; size_t n = g.below(3000); for (size_t i = 0; i < n; i++) s += (char)g.next(); start[f.f[k]] = s; }
    start["/d/other"] = "bystander"; fs() = start; tame_io(); IoPlan tame = io; IoJob j; Result r = call_io(fn, c, j);
    if (r.outcome != RETURNED || j.ret != 0) violate("spurious-failure", "%s on healthy storage: %s", io_name[fn], verdict(r, j).c_str());
    free_rec(j); auto good = fs(); IoStats st = iostat; size_t total = 0; for (int k = 0; k < f.n; k++) total += good[f.f[k]].size();
    if (family(fn) != F_BLK && family(fn) != F_MM) for (int k = 0; k < f.n; k++) if (good[f.f[k]] != expected_file(c, fn, k)) violate("incomplete-file", "%s on healthy storage wrote something else than the matrix", io_name[fn]);
    for (int t = 0; t < 3; t++) {
        io_reset(); io = tame; fs() = start; int kind = choose(5);
        switch (kind) {
        case 0: io.kind = IO_WRITE_ERR; io.at = st.writes ? choose((uint32_t)st.writes) : 0; io.sticky = true; break;
        case 1: io.kind = IO_WRITE_ERR; io.at = st.writes ? choose((uint32_t)st.writes) : 0; io.sticky = false; break;
        case 2: io.kind = IO_NOSPACE; io.space = choose((uint32_t)total + 1); if (choose(4) == 3) io.space = (long)total - 1 - choose((uint32_t)std::min<size_t>(total, 5)); if (io.space < 0) io.space = 0; break;
        case 3: io.kind = IO_CLOSE_FAIL; io.at = choose((uint32_t)st.closes); break;
        default: io.kind = IO_OPEN_FAIL; io.at = choose((uint32_t)st.opens); break;
        }
        static const char *const what[] = {"a lasting write error", "a passing write error", "a full disk", "a failing close", "a failing open"};
        r = call_io(fn, c, j);
        if (r.outcome != RETURNED) violate("no-result", "%s with %s: %s", io_name[fn], what[kind], verdict(r, j).c_str());
        if (iostat.fired && j.ret >= 0 && (kind == 3 || j.ret != 0 || fs() != good)) violate("failure-hidden", "%s with %s at operation %ld returned %d", io_name[fn], what[kind], io.at, j.ret);
        if (!iostat.fired && j.ret != 0) violate("spurious-failure", "%s returned %d although no fault happened", io_name[fn], j.ret);
        if (j.ret == 0 && fs() != good) violate("incomplete-file", "%s returned 0 but the files are not complete", io_name[fn]);
        if (fs()["/d/other"] != "bystander") violate("other-file", "%s changed another file", io_name[fn]);
        if (iostat.fired) nontrivial();
        free_rec(j);
    }
}
static void c18() {
    io_schedule(); cfg.handle_check = true; cfg.malloc_limit = 1 << 20; int fn = choose(IO_FNS); Content c = content_for(fn, 200); Files f = files_of(fn);
    if (!is_writer(fn)) {
        if (family(fn) == F_MM) { int w = W_MM_C2; tame_io(); IoJob j; call_io(w, c, j); free_rec(j); } else put_files(c, fn);
    }
    auto start = fs(); tame_io(); IoPlan tame = io; IoJob j; Result r = call_io(fn, c, j); IoStats st = iostat; free_rec(j);
    note("%s<%s> %zu entries: %s", io_name[fn], c.dbl ? "double" : "float", c.rec.size(), verdict(r, j).c_str());
    auto check = [&](const char *nm, const char *why, const Result &q) {
        if (q.outcome == RETURNED) { if (open_handles()) violate("handle-leak", "%s left %d file(s) open %s", nm, open_handles(), why); nontrivial(); }
        else close_all_silently();
    };
    check(io_name[fn], "on healthy storage", r);
    for (int t = 0; t < 3; t++) {
        io_reset(); io = tame; fs() = start; int kind = choose(is_writer(fn) ? 5 : 7); const char *why = "";
        int which = choose(f.n); std::string &s = fs()[f.f[which]];
        switch (is_writer(fn) ? kind + 10 : kind) {
        case 6: case 14: io.unseekable = true; why = "with a file that cannot be rewound"; break;
        case 0: io.kind = IO_OPEN_FAIL; io.at = choose((uint32_t)st.opens + 1); why = "after a failing open"; break;
        case 1: io.kind = IO_READ_ERR; io.at = st.reads ? choose((uint32_t)st.reads) : 0; io.sticky = choose(2); why = "after a read error"; break;
        case 2: if (!s.empty()) s.resize(choose((uint32_t)s.size())); fault("truncated_file"); why = "with a file that is cut short"; break;
        case 3: { Rng g(seed32()); int k = 1 + choose(4); for (int i = 0; i < k && !s.empty(); i++) { size_t at = g.below(2) ? g.below((uint32_t)s.size()) : g.below((uint32_t)std::min<size_t>(s.size(), 40)); s[at] = (char)(family(fn) == F_MM ? "0123 %-x\n"[g.below(9)] : (char)g.next()); } fault("damaged_file"); why = "with a damaged file"; break; }
        case 4: fs().erase(f.f[which]); fault("missing_file"); why = "with a missing file"; break;
        case 5: if (fn == R_ARR_IDX || fn == R_ARR_VAL) cfg.malloc_left = 0; else if (fn == R_BLK_CSBR || fn == R_BLK_CSBR2) cfg.malloc_left = (int)choose(4); why = "after a failing allocation"; break;
        case 10: io.kind = IO_OPEN_FAIL; io.at = choose((uint32_t)st.opens + 1); why = "after a failing open"; break;
        case 11: io.kind = IO_WRITE_ERR; io.at = st.writes ? choose((uint32_t)st.writes) : 0; io.sticky = choose(2); why = "after a write error"; break;
        case 12: io.kind = IO_NOSPACE; io.space = choose(300); why = "on a full disk"; break;
        case 13: io.kind = IO_CLOSE_FAIL; io.at = choose((uint32_t)st.closes); why = "after a failing close"; break;
        }
        r = call_io(fn, c, j); cfg.malloc_left = -1; check(io_name[fn], why, r);
        if (choose(6) == 5) { io_reset(); io.kind = choose(2) ? IO_OPEN_FAIL : IO_NONE; io.at = 0; io.unseekable = choose(2); r = guarded([&] { guest([&] { do_file_size(f.f[0]); }); }); check("get_file_size", "", r); }
    }
}
static Register r12({"C12", c12, "a run reads one complete file, then three times a cut, failing or abandoned one; non-trivial when a fault fired; distinct by hash of all events", "read_bin_COO, read_COO, read_bin_CSR, read_bin_array, all four read_bin_blocked, the binary writers (for abandoned files), multiplication of what was read, glibc stdio buffering", "disk under stdio (truncation, read errors, open failures, crashes, torn writes), memory allocator, OpenMP runtime"});
static Register r14({"C14", c14, "a run writes one matrix on healthy storage, then three times on failing storage; non-trivial when a fault fired; distinct by hash of all events", "all nine writers, mm_io, glibc stdio buffering", "disk under stdio (write errors, full disk, failing close and open), memory allocator"});
static Register r18({"C18", c18, "a run calls one reader or writer on healthy storage, then three times with faults, and counts handles; non-trivial when a call returned; distinct by hash of all events", "all readers and writers, get_file_size, glibc stdio buffering", "disk under stdio, memory allocator"});
