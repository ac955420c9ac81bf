// C26: the benchmark drivers, from the file on disk to the printed report.
#include "tools.h"
#include <cstdio>
#include <set>
#include <iostream>
#include <streambuf>
using namespace sim; using namespace api;
int drv_csr_main(int, char **); int drv_csr2_main(int, char **); int drv_cswr_main(int, char **); int drv_csbr_main(int, char **); int drv_csbr2_main(int, char **);
int drv_cgbr_main(int, char **); int drv_cgbr2_main(int, char **); int drv_bench_main(int, char **); int drv_pbench_main(int, char **);
enum Drv { D_CSR, D_CSR2, D_CSWR, D_CSBR, D_CSBR2, D_CGBR, D_CGBR2, D_BENCH, D_PBENCH, DRIVERS };
static const char *const dname[] = {"csr", "csr2", "cswr", "csbr", "csbr2", "cgbr", "cgbr2", "bench", "pbench"};
static int (*const dmain[])(int, char **) = {drv_csr_main, drv_csr2_main, drv_cswr_main, drv_csbr_main, drv_csbr2_main, drv_cgbr_main, drv_cgbr2_main, drv_bench_main, drv_pbench_main};
static struct Sink : std::streambuf { int overflow(int c) override { if (c != EOF) captured() += (char)c; return c; } std::streamsize xsputn(const char *s, std::streamsize n) override { captured().append(s, (size_t)n); return n; } } sink;
static std::string u32s(const std::vector<uint32_t> &v) { return std::string((const char *)v.data(), v.size() * 4); }
static std::vector<uint32_t> diff(const std::vector<uint32_t> &o) { std::vector<uint32_t> s; for (size_t i = 1; i < o.size(); i++) s.push_back(o[i] - o[i - 1]); return s; }
static uint64_t ticks_;                            // every clock reading is one microsecond after the one before
static void reading() { advance(1000); ticks_++; }
// every MFLOP/s line about this method has to show two operations per non-zero in the microsecond that passed
static void check_rates(const std::string &out, const char *method, uint64_t nnz, bool csv, const char *drv) {
    std::vector<double> v; size_t p = 0;
    while (p < out.size()) {
        size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size(); std::string l = out.substr(p, e - p); p = e + 1; double a, b, c, d;
        if (csv) { if (l.compare(0, strlen(method) + 1, std::string(method) + ",") == 0 && sscanf(l.c_str() + strlen(method) + 1, "%lf,%lf,%lf,%lf", &a, &b, &c, &d) == 4) { v = {a, b, c, d}; } }
        else if (l.compare(0, 7, "MFLOP/s") == 0 && l.find(method) != std::string::npos && l.rfind(": ") != std::string::npos) v.push_back(atof(l.c_str() + l.rfind(": ") + 2));
    }
    if (v.size() != 4) violate("report", "%s printed %zu rates for %s, expected 4", drv, v.size(), method);
    for (double x : v) if (std::fabs(x - 2.0 * nnz) > 0.51 + 1e-6 * nnz) violate("report", "%s reported %.0f MFLOP/s for %s, a matrix of %llu entries at one microsecond makes %llu", drv, x, method, (unsigned long long)nnz, (unsigned long long)(2 * nnz));
}
static bool has(const std::string &out, const char *fmt, unsigned long a, unsigned long b) { char t[120]; snprintf(t, sizeof t, fmt, a, b); return out.find(t) != std::string::npos; }
static void c26() {
    static std::streambuf *old = nullptr; if (!old) old = std::cout.rdbuf(&sink); static const std::ios fresh(nullptr); std::cout.copyfmt(fresh); std::cout.clear();
    fs_mkdir("/d"); int drv = choose(DRIVERS); const char *nm = dname[drv]; random_schedule_config(); set_workers(any_workers());
    Matrix m = gen_matrix(choose(4) == 3 ? 1500 : 120, 400); Content c = from_matrix(m, false); bool mtx = choose(3) == 2; std::string path = mtx ? "/d/m.mtx" : "/d/m.bin"; std::vector<std::string> args = {nm, path};
    if (mtx) { std::string t = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(c.rows) + " " + std::to_string(c.cols) + " " + std::to_string(c.rec.size()) + "\n"; for (auto &e : m.e) { char l[80]; snprintf(l, sizeof l, "%u %u %.9g\n", e.r + 1, e.c + 1, e.v); t += l; } fs()[path] = t; } else fs()[path] = bytes_bin(c);
    bool must_fail = false, may_fail = false; const char *why = "healthy input"; bool blocked = drv >= D_CSBR && drv <= D_CGBR2; std::vector<uint32_t> roff, coff, given;
    if (blocked && choose(2)) {
        static const uint32_t bm[] = {8, 1, 3, 40, 300}; roff = gen_offsets(c.rows, bm[choose(5)]); coff = gen_offsets(c.cols, bm[choose(5)]); std::vector<uint32_t> rs = diff(roff), cs = diff(coff);
        if (choose(4) == 3) { std::vector<uint32_t> &s = choose(2) ? cs : rs; must_fail = true; why = "block sizes do not cover the matrix"; switch (choose(3)) { case 0: s.pop_back(); break; case 1: s.back() += range(1, 100); break; default: if (s.size() && s.back() > 1) s.back()--; else s.pop_back(); } fault("bad_input"); }
        fs()["/d/rb"] = u32s(rs); fs()["/d/cb"] = u32s(cs); args.push_back("/d/rb"); args.push_back("/d/cb"); probe("given_block_sizes");
        if (!must_fail && choose(6) == 5) { fs()[choose(2) ? "/d/rb" : "/d/cb"].push_back('x'); must_fail = true; why = "block sizes are cut inside an element"; fault("truncated_input"); }
    }
    if (drv == D_CSWR && choose(2)) { static const char *const w[] = {"32", "1", "7", "256", "100", "0", "x", "70000", "2147483647", "010", "0032", "+16", " 12"}; const char *a = w[choose(13)]; args.push_back(a); may_fail = atoi(a) > 256 && c.rows > 256; if (atoi(a) == 0) { must_fail = true; why = "the width is not a positive number"; fault("bad_input"); } }
    if (drv == D_PBENCH) {
        uint32_t n = std::max(c.rows, c.cols); std::vector<uint32_t> p(n); for (uint32_t i = 0; i < n; i++) p[i] = i; Rng g(seed32()); for (uint32_t i = n; i > 1; i--) { uint32_t j = g.below(i); if (c.rows == c.cols) std::swap(p[i - 1], p[j]); else if ((i - 1 < std::min(c.rows, c.cols)) == (j < std::min(c.rows, c.cols))) std::swap(p[i - 1], p[j]); }   // a permutation of both ranges
        if (choose(5) == 4 && n > 1) { must_fail = true; why = "the permutation is damaged"; fault("bad_input"); uint32_t lo = std::min(c.rows, c.cols); switch (lo < n && !m.e.empty() ? choose(4) : choose(3)) { case 3: { auto &e = m.e[choose((uint32_t)m.e.size())]; std::iter_swap(std::find(p.begin(), p.end(), c.rows < c.cols ? e.r : e.c), p.begin() + lo + choose(n - lo)); why = "the permutation moves an entry out of the matrix"; probe("moved_out"); break; } case 0: { uint32_t keep = 0; for (auto &e : m.e) keep = std::max(keep, std::max(e.r, e.c)); if (m.e.empty()) { must_fail = false; break; } p.resize(choose(keep + 1)); break; } case 1: p[g.below(n)] = n + g.below(1000000); break; default: { uint32_t i = g.below(n), j = (i + 1) % n; p[i] = p[j]; } } }
        given = p; fs()["/d/p"] = u32s(p); args.push_back("/d/p");
    }
    if (!must_fail) switch (choose(8)) {
        case 7: { std::string &b = fs()[path]; if (mtx) { size_t k = b.find('\n', b.find('\n') + 1) + 1; if (k >= b.size()) break; b.resize(k + choose((uint32_t)(b.size() - k - 1) + 1)); while (!b.empty() && b.back() != '\n') b.pop_back(); } else b.resize(choose((uint32_t)b.size())); must_fail = true; why = "the matrix file is cut"; fault("truncated_input"); break; }
        case 6: { fs().erase(args[range(1, (drv == D_PBENCH || args.size() == 4) ? (uint32_t)args.size() - 1 : 1)]); must_fail = true; why = "an input file is missing"; fault("missing_input"); break; }
        case 5: {                                               // a command line that names too few or too many files
            if (choose(4)) break;
            if (choose(3) == 2 && drv != D_CSWR && !(blocked && args.size() == 2)) { args.push_back("/d/extra"); may_fail = true; break; }
            if (args.size() == 2 || drv == D_CSWR || choose(3) == 2) args.resize(1); else args.pop_back();
            must_fail = true; why = "arguments are missing"; fault("bad_command_line"); break; }
        default: break; }
    auto start = fs(); note("%s %s, %s, %u workers, %s", nm, shape_str(m).c_str(), mtx ? "mtx" : "bin", cfg.workers, why);
    IoStats dry; int rounds = must_fail ? 1 : 1 + choose(3);
    for (int t = 0; t < rounds; t++) {
        io_reset(); fs() = start; captured().clear(); on_clock = reading; io.short_ops = choose(2); if (t) { random_schedule_config(); set_workers(any_workers()); } if (choose(3)) cfg.preempt = false; int kind = t ? choose(3) : 0;
        if (t) { if (kind == 2) { io.kind = IO_OPEN_FAIL; io.at = choose((uint32_t)dry.opens + 1); } else { io.kind = IO_READ_ERR; io.at = choose((uint32_t)dry.reads + 1); io.sticky = choose(2); } }
        Exit e = run_tool(dmain[drv], args); if (t == 0) dry = iostat; bool fired = iostat.fired, lost = iostat.lost_data;   // a reader may try again after an error that does not last
        std::string out = captured(); on_clock = nullptr;
        if (e.r.outcome == CRASHED) violate("crash", "%s crashed: %s", nm, e.r.msg.c_str());
        if (fs() != start) violate("input-damaged", "%s changed a file", nm);
        if (e.status == 0) {
            if (must_fail) violate("success-claimed", "%s ended with status 0 although %s", nm, why);
            if (fired && kind != 2 && !mtx && lost) violate("success-claimed", "%s ended with status 0 although reading failed", nm);
            if (fired && kind == 2) violate("success-claimed", "%s ended with status 0 although a file could not be opened", nm);
            uint64_t nnz = c.rec.size(); bool two = drv == D_BENCH || drv == D_PBENCH;
            if (two || drv == D_CSR || drv == D_CSR2) check_rates(out, "CSR", nnz, drv == D_PBENCH, nm);
            if (two || blocked) check_rates(out, "GSB", nnz, drv == D_PBENCH, nm);
            if (drv == D_CSWR) {
                check_rates(out, "CSWR", nnz, false, nm); unsigned long rows = 0, groups = 0, width = 0, n = 0, w = args.size() > 2 ? (unsigned long)atoi(args[2].c_str()) : 32; size_t q = out.find("Cswr matrix : ");
                if (q == std::string::npos || sscanf(out.c_str() + q, "Cswr matrix : %lu rows in %lu groups of %lu, %lu non-zeros", &rows, &groups, &width, &n) != 4) violate("report", "cswr did not describe its matrix");
                if (width != w || rows != c.rows || n != nnz || groups != (c.rows + w - 1) / w) violate("wrong-matrix", "cswr was given %u rows, %llu entries and width %lu, it reports %lu rows in %lu groups of %lu, %lu entries", c.rows, (unsigned long long)nnz, w, rows, groups, width, n);
            }
            if (drv == D_PBENCH) {                    // it applies the inverse of what it is given, and says how many blocks that makes
                size_t q = out.find("Beta = "); if (q == std::string::npos) violate("report", "pbench did not report the block size"); uint32_t beta = (uint32_t)atoll(out.c_str() + q + 7); if (!beta) beta = 1u << 31;
                std::vector<uint32_t> inv(given.size()); for (uint32_t i = 0; i < given.size(); i++) inv[given[i]] = i;
                unsigned nbr = 1, nbc = 1; q = out.find(" columns\n\t"); if (q == std::string::npos || sscanf(out.c_str() + q + 10, "%u block-rows x %u block-columns", &nbr, &nbc) != 2 || !nbr || !nbc) violate("report", "pbench did not report the number of block-rows and block-columns");
                auto cell = [&](uint32_t r, uint32_t c) { return std::make_pair(std::min(r / beta, nbr - 1), std::min(c / beta, nbc - 1)); };      // the last block takes the rest
                std::set<std::pair<uint32_t, uint32_t>> bl, fw; for (auto &x : m.e) { bl.insert(cell(inv[x.r], inv[x.c])); fw.insert(cell(given[x.r], given[x.c])); }
                if (bl.size() != fw.size()) probe("direction_shows");
                if (!has(out, "%lu rows x %lu columns", c.rows, c.cols)) violate("wrong-matrix", "pbench did not report a %ux%u matrix", c.rows, c.cols);
                if (!has(out, "%lu non-zeros in %lu blocks", nnz, bl.size())) violate("wrong-matrix", "the inversely permuted matrix has %llu entries in %zu blocks of %u, pbench reports others", (unsigned long long)nnz, bl.size(), beta);
            }
            if (blocked) {
                if (!has(out, "%lu rows x %lu columns", c.rows, c.cols)) violate("wrong-matrix", "%s did not report a %ux%u matrix", nm, c.rows, c.cols);
                if (!roff.empty()) { Content k = c; k.roff = roff; k.coff = coff; block_sort(k); if (!has(out, "%lu block-rows x %lu block-columns", roff.size() - 1, coff.size() - 1)) violate("wrong-blocks", "%s was given %zux%zu blocks and used others", nm, roff.size() - 1, coff.size() - 1); if (!has(out, "%lu non-zeros in %lu blocks", nnz, k.nblocks)) violate("wrong-blocks", "%s did not report %llu entries in %u blocks", nm, (unsigned long long)nnz, k.nblocks); }
                else if (out.find(std::to_string(nnz) + " non-zeros in") == std::string::npos) violate("wrong-matrix", "%s did not report %llu entries", nm, (unsigned long long)nnz);
            }
            nontrivial();
        } else if (!fired && !must_fail && !may_fail) violate("spurious-failure", "%s failed on healthy input: %s, status %d, %s", nm, outcome_name(e.r.outcome), e.status, e.r.msg.c_str());
        else if (out.find("MFLOP/s") != std::string::npos || (drv == D_PBENCH && out.find("CSR,") != std::string::npos)) violate("report", "%s failed but printed a report", nm);
    }
}
static Register r26({"C26", c26, "a run starts one driver on one matrix file, up to three times, some with storage faults; counted when a fault fired, a schedule choice was made or a report was compared; distinct by hash of all events",
    "the nine benchmark drivers of the Makefile, readers, conversions, block size choice, multiplication kernels, report printers", "disk under stdio, clocks, standard output, OpenMP runtime, memory allocator"});
