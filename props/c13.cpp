// C13: MatrixMarket text is read as the matrix it describes, or refused.
#include "iou.h"
#include <cstdio>
#include <cstdlib>
#include <cctype>
#include <array>
using namespace sim; using namespace api;
enum Verdict { EXACT, MUST_FAIL, EITHER };
struct Text {
    std::string banner, gap, size; std::vector<std::array<std::string, 3>> tok; std::vector<std::string> sep;   // sep[i] follows token i
    bool pattern = false; int sym = 0; uint32_t rows = 1, cols = 1; size_t nnz = 0; std::vector<Bits> want; std::string eol = "\n", tail;
    int per() const { return pattern ? 2 : 3; }
    std::string str() const { std::string s = banner + eol + gap + size + eol + tail; size_t k = 0; for (auto &t : tok) for (int i = 0; i < per(); i++) { s += t[i]; s += sep[k++]; } return s; }
};
static std::string pick_case(const char *w) { std::string s = w; int m = (int)choose(4); for (size_t i = 0; i < s.size(); i++) if (m == 1 || (m == 2 && i == 0) || (m == 3 && choose(2))) s[i] = (char)toupper(s[i]); return s; }
static std::string blank(Rng &g) { std::string s; int n = 1 + (g.below(4) == 0 ? g.below(5) : 0); for (int i = 0; i < n; i++) s += " \t"[g.below(4) == 0]; return s; }
static std::string num1(Rng &g, bool integer, bool dbl) {
    char b[64];
    if (integer) { switch (g.below(7)) { case 4: case 5: snprintf(b, sizeof b, "%s%lld", g.below(6) ? "" : "000", (long long)(g.next() >> (11 + g.below(30)))); break; case 6: snprintf(b, sizeof b, "-%lld", (long long)(g.next() >> (11 + g.below(30)))); break; case 0: snprintf(b, sizeof b, "%d", (int)g.below(200) - 100); break; case 1: snprintf(b, sizeof b, "+%u", g.below(1000)); break; case 2: snprintf(b, sizeof b, "%d", dbl ? (int)g.next() : (int)g.below(1 << 24)); break; default: snprintf(b, sizeof b, "%u", g.below(10)); } return b; }
    union { uint64_t u; double d; } x; do { x.u = g.next(); if (g.below(2)) x.u = (x.u & 0x800fffffffffffffull) | ((uint64_t)(1023 - 30 + g.below(60)) << 52); } while (!std::isfinite(x.d) || (!dbl && (std::fabs(x.d) > 1e37 || std::fabs(x.d) < 1e-36)));
    switch (g.below(12)) {
    case 9: snprintf(b, sizeof b, "%.*f", (int)g.below(20), (double)(int64_t)g.next() / 1e9); break; case 10: snprintf(b, sizeof b, "%lld", (long long)g.next() >> g.below(50)); break; case 11: snprintf(b, sizeof b, "%s%u%c%+03d", g.below(2) ? "-" : "", g.below(100000), "eE"[g.below(2)], (int)g.below(30) - 15); break;
    case 0: snprintf(b, sizeof b, "%.17g", x.d); break; case 1: snprintf(b, sizeof b, "%.3e", x.d); break; case 2: snprintf(b, sizeof b, "%.9E", x.d); break;
    case 3: snprintf(b, sizeof b, "%u.", g.below(1000)); break; case 4: snprintf(b, sizeof b, "-.%u", g.below(1000)); break; case 5: snprintf(b, sizeof b, "%d", (int)g.below(20) - 10); break;
    case 6: snprintf(b, sizeof b, "%.2f", (double)(int)g.below(100000) / 7); break; case 7: snprintf(b, sizeof b, "+%.5g", std::fabs(x.d)); break; default: snprintf(b, sizeof b, "0%u.%u0", g.below(9), g.below(99));
    }
    return b;
}
// single precision: a number whose rounding does not depend on the way it is read
static std::string num(Rng &g, bool integer, bool dbl) { for (;;) { std::string s = num1(g, integer, dbl); if (dbl || strtof(s.c_str(), nullptr) == (float)strtod(s.c_str(), nullptr)) return s; } }
static std::string S(uint64_t v) { return std::to_string(v); }
static Text gen(bool dbl) {
    Text t; int kind = (int)choose(3); t.pattern = kind == 2; t.sym = choose(5) == 4 ? (int)choose(3) + 1 : choose(2) ? 1 : 0;
    static const char *const fields[] = {"real", "integer", "pattern"}; static const char *const syms[] = {"general", "symmetric", "skew-symmetric", "hermitian"};
    Rng g(seed32()); bool plain = choose(2) == 0;
    auto sp = [&] { return plain ? std::string(" ") : blank(g); };
    if (choose(6) == 5) t.eol = "\r\n";
    t.banner = "%%MatrixMarket" + sp() + pick_case("matrix") + sp() + pick_case("coordinate") + sp() + pick_case(fields[kind]) + sp() + pick_case(syms[t.sym]) + (plain || g.below(3) ? "" : blank(g));
    uint32_t lines = choose(4); if (choose(4) == 3) lines = choose(12);
    for (uint32_t i = 0; i < lines; i++) {
        if (g.below(4) == 0) { t.gap += (g.below(2) ? std::string() : blank(g)) + t.eol; continue; }
        std::string c = "%"; uint32_t n = g.below(6) == 0 ? g.below(900) : g.below(60); for (uint32_t k = 0; k < n; k++) c += (char)(32 + g.below(95)); t.gap += c + t.eol;
    }
    if (choose(100) == 99) { uint32_t n = 70 + g.below(80), w = 900 + g.below(120); for (uint32_t i = 0; i < n; i++) t.gap += "%" + std::string(w, (char)('a' + g.below(26))) + t.eol; probe("long_comments"); }
    static const uint32_t ds[] = {6, 1, 2, 30, 500, 100000, 0x7fffffff}; t.rows = range(1, ds[choose(7)]); t.cols = t.sym ? t.rows : range(1, ds[choose(7)]);
    static const uint32_t ns[] = {5, 0, 1, 2, 30, 200}; uint32_t n = ns[choose(6)]; if (n > 2) n = choose(n + 1); if (choose(300) == 299) { n = 3000 + choose(6000); probe("thousands_of_records"); cfg.step_cap = 2000000000ull; if (choose(50) == 49) { n = 40000 + choose(100000); t.rows = 100000 + choose(100000); t.cols = t.sym ? t.rows : 100000; probe("beyond_16_bits"); } }
    std::map<std::pair<uint32_t, uint32_t>, int> used;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = g.below(t.rows), c = g.below(t.cols); if (g.below(5) == 0) r = t.rows - 1; if (g.below(5) == 0) c = t.cols - 1; if (t.sym && g.below(4) == 0) c = r;
        if (t.sym) { if (g.below(8) && c > r) std::swap(r, c); if (t.sym == 2 && r == c) continue; if (used.count({r, c}) || used.count({c, r})) continue; used[{r, c}] = 1; }
        std::string v = t.pattern ? "" : num(g, kind == 1, dbl); double d = t.pattern ? 1.0 : strtod(v.c_str(), nullptr);
        auto bits = [&](double q) { uint64_t b = 0; if (dbl) memcpy(&b, &q, 8); else { float f = (float)q; memcpy(&b, &f, 4); } return b; };
        t.want.push_back({r, c, bits(d), 0}); if (t.sym && r != c) t.want.push_back({c, r, bits(t.sym == 2 ? -d : d), 0});
        bool zero = !plain && g.below(20) == 0; t.tok.push_back({(zero ? "0" : "") + S((uint64_t)r + 1), (plain || g.below(30) ? "" : "+") + S((uint64_t)c + 1), v});
    }
    t.nnz = t.tok.size(); t.size = (plain || g.below(4) ? "" : blank(g)) + S(t.rows) + sp() + S(t.cols) + sp() + S(t.nnz) + (plain || g.below(4) ? "" : blank(g));
    int per = t.per(); for (size_t i = 0; i < t.nnz; i++) for (int k = 0; k < per; k++) { if (k + 1 < per) t.sep.push_back(plain || g.below(40) ? sp() : t.eol); else { std::string s = (plain || g.below(6) ? "" : blank(g)) + t.eol; while (!plain && g.below(10) == 0) s += (g.below(2) ? "" : blank(g)) + t.eol; if (!plain && g.below(5) == 0) s += blank(g); t.sep.push_back(s); } }
    if (choose(5) == 4) { if (!t.sep.empty()) t.sep.back() = ""; else if (choose(2)) t.eol = "\n"; probe("no_final_newline"); }
    return t;
}
static Verdict damage(Text &t, std::string &s, std::string &how) {
    size_t n = t.tok.size(); int per = t.per();
    size_t head = (t.banner + t.eol + t.gap + t.size + t.eol).size();
    auto redo = [&] { s = t.str(); };
    switch (choose(16)) {
    case 0: { if (!n) return EXACT; size_t k = 1 + choose((uint32_t)n); t.tok.resize(n - k); t.sep.resize((n - k) * per); redo(); how = "last " + S(k) + " entries missing"; return MUST_FAIL; }
    case 1: { // cut so that fewer than all tokens are complete or started
        if (!n) return EXACT; std::string body = s.substr(head); size_t last = body.find_last_not_of(" \t\r\n"); size_t start = body.find_last_of(" \t\r\n", last); start = start == std::string::npos ? 0 : start + 1;
        if (start == 0) return EXACT; size_t cut = choose((uint32_t)start + 1); s = s.substr(0, head + cut); how = "cut after byte " + S(head + cut); return MUST_FAIL; }
    case 2: { size_t cut = choose((uint32_t)s.size() + 1); std::string c = s.substr(0, cut); how = "cut after byte " + S(cut);
        size_t body = s.find_last_not_of(" \t\r\n"); std::string full = s; s = c; if (cut > body) return EXACT; if (n == 0) return EITHER;
        size_t ls = full.find_last_of(" \t\r\n", body); return cut <= ls + 1 ? MUST_FAIL : EITHER; }
    case 3: { if (!n) return EXACT; size_t i = choose((uint32_t)n); int k = choose(per); size_t at = i * per + k; std::string rest; size_t j = 0; std::string o = t.banner + t.eol + t.gap + t.size + t.eol; for (size_t e = 0; e < n; e++) for (int q = 0; q < per; q++, j++) if (j != at) o += t.tok[e][q] + (t.sep[j].empty() ? " " : t.sep[j]); s = o; how = "token " + S(at) + " missing"; return MUST_FAIL; }
    case 4: case 5: { if (!n) return EXACT; size_t i = choose((uint32_t)n); int k = choose(2); static const char *const bad[] = {"0", "-1", "abc", "1.5", "99999999999999999999", "1e3", "4294967297", "0x1", "1,", "--1", "2a", "%"}; std::string b = bad[choose(12)]; if (choose(4) == 3) b = S((uint64_t)(k ? t.cols : t.rows) + 1 + choose(3)); t.tok[i][k] = b; redo(); how = std::string(k ? "column" : "row") + " of entry " + S(i) + " is " + b; return MUST_FAIL; }
    case 6: { if (!n || t.pattern) return EXACT; size_t i = choose((uint32_t)n); static const char *const bad[] = {"abc", "1.0x", "--3", "1.2.3", "-", "e5", "1,5", "$", "3-4"}; t.tok[i][2] = bad[choose(9)]; redo(); how = "value of entry " + S(i) + " is " + t.tok[i][2]; return MUST_FAIL; }
    case 7: { uint64_t k = t.nnz + 1 + choose(4); if (choose(4) == 3) k = 2147483647u; t.size = S(t.rows) + " " + S(t.cols) + " " + S(k); redo(); how = "size line promises " + S(k) + " entries"; return MUST_FAIL; }
    case 8: { static const char *const bad[] = {"3 3", "-3 3 0", "3 -3 0", "3 3 -1", "2147483648 1 0", "1 2147483648 0", "1 1 2147483648", "4294967299 4294967299 0", "a b c", "3", "99999999999999999999 1 0", "x 3 0"}; t.size = bad[choose(12)]; redo(); how = "size line is " + t.size; if (choose(4) == 3 && t.size == "3") t.size = "3"; return (t.size == "3 3" || t.size == "3") && n ? MUST_FAIL : MUST_FAIL; }
    case 9: { static const char *const bad[] = {"%MatrixMarket matrix coordinate real general", "%%MatrixMarke matrix coordinate real general", "%%MatrixMarket matrix coordinate real", "%%MatrixMarket matrix", "%%MatrixMarket vector coordinate real general", "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix coordinate complex general", "%%MatrixMarket matrix coordinate real strange", "%%MatrixMarket matrix coordinate quaternion general", "%%MatrixMarket matrix coord real general", "", "MatrixMarket", "%%MatrixMarket matrix coordinate complex symmetric", "%%MatrixMarket matrix coordinate complex hermitian", "% a comment", "%%MatrixMarket matrix coordinate general real"}; t.banner = bad[choose(16)]; redo(); how = "banner is \"" + t.banner + "\""; return MUST_FAIL; }
    case 10: { if (!n) return EXACT; uint32_t mr = 0, mc = 0; for (auto &w : t.want) { mr = std::max(mr, w.r); mc = std::max(mc, w.c); } if (t.sym) { if (mr == 0) return EXACT; t.size = S(mr) + " " + S(mr) + " " + S(n); } else if (choose(2)) t.size = S(mr) + " " + S(t.cols) + " " + S(n); else t.size = S(t.rows) + " " + S(mc) + " " + S(n); redo(); how = "size line is " + t.size; return MUST_FAIL; }
    case 11: { if (t.sym != 1) return EXACT; t.size = S(t.rows) + " " + S((uint64_t)t.cols + 1 < 2147483648u ? t.cols + 1 : t.cols - 1) + " " + S(n); redo(); how = "symmetric but " + t.size; return MUST_FAIL; }
    case 12: { s.clear(); how = "empty file"; return MUST_FAIL; }
    default: return EXACT;
    }
}
static bool same(std::vector<Bits> a, std::vector<Bits> b) {
    auto lt = [](const Bits &x, const Bits &y) { return x.r != y.r ? x.r < y.r : x.c != y.c ? x.c < y.c : x.v < y.v; };
    if (a.size() != b.size()) return false; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
    for (size_t i = 0; i < a.size(); i++) if (a[i].r != b[i].r || a[i].c != b[i].c || a[i].v != b[i].v) return false;
    return true;
}
static void c13() {
    io_schedule(); cfg.malloc_limit = 1 << 24; bool dbl = choose(2) == 0; Text t = gen(dbl); std::string s = t.str(), how; Text good = t;
    Verdict v = choose(3) ? EXACT : damage(t, s, how); bool dmg = v != EXACT; if (dmg) fault("damaged_text");
    if (v == EXACT && good.sym >= 2) v = EITHER;                   // unsupported kinds may be refused
    note("%s, %zu entries%s%s", good.banner.substr(0, 70).c_str(), good.nnz, dmg ? ", " : "", how.c_str());
    const char *path = files_of(R_MM_C2).f[0]; fs()[path] = s; tame_io(); int fault_kind = choose(4) == 3 ? 1 + (int)choose(2) : 0; IoPlan tame = io;
    Content c; c.dbl = dbl; long reads = 4;
    static const int rd[] = {R_MM_C2, R_MM_C3, R_ANY_C2, R_ANY_C3}; int fn = rd[choose(4)];
    auto call = [&](IoJob &j) { j = IoJob(); j.fn = fn; j.dbl = dbl; j.f1 = path; j.fill = cfg.fill; return guarded([&] { guest([&] { run_io(j); }); }); };
    for (int pass = 0; pass < (fault_kind ? 2 : 1); pass++) {
        if (pass) { io_reset(); io = tame; if (fault_kind == 1) { io.kind = IO_READ_ERR; io.at = choose((uint32_t)reads); io.sticky = choose(2) == 0; } else { io.kind = IO_OPEN_FAIL; io.at = 0; } }
        IoJob j; Result r = call(j); if (!pass) reads = std::max(1l, iostat.reads);
        bool fired = iostat.fired, bad = failed(r, j), ok = success(r, j); const char *nm = io_name[fn];
        if (!bad && !ok) violate("no-verdict", "%s: %s", nm, verdict(r, j).c_str());
        if (ok && v == MUST_FAIL) violate("bad-text-accepted", "%s accepted a file that is not valid (%s) with %u entries", nm, how.c_str(), j.nnz);
        if (bad && v == EXACT && !fired) violate("good-text-refused", "%s refused a valid file: %s", nm, verdict(r, j).c_str());
        if (ok && v == EITHER && dmg) {                            // the last number may have been cut: everything before it must be right
            if (j.rows != good.rows || j.cols != good.cols) { if (good.nnz) violate("wrong-matrix", "%s: shape %ux%u, file says %ux%u", nm, j.rows, j.cols, good.rows, good.cols); }
            for (uint32_t i = 0; i < j.nnz; i++) if (j.rec[i].r >= j.rows || j.rec[i].c >= j.cols) violate("wrong-matrix", "%s: entry %u is outside the matrix", nm, i);
        } else if (ok) {
            if (j.rows != good.rows || j.cols != good.cols) violate("wrong-matrix", "%s: shape %ux%u, file says %ux%u%s", nm, j.rows, j.cols, good.rows, good.cols, fired ? " (after a read error)" : "");
            std::vector<Bits> got(j.rec, j.rec + j.nnz);
            if (!same(got, good.want)) {
                std::string d = std::to_string(got.size()) + " entries, file describes " + std::to_string(good.want.size());
                if (got.size() == good.want.size()) for (size_t i = 0; i < got.size(); i++) if (got[i].r != good.want[i].r || got[i].c != good.want[i].c || got[i].v != good.want[i].v) { char b[160]; snprintf(b, sizeof b, "entry %zu is (%u,%u,%llx), file describes (%u,%u,%llx)", i, got[i].r, got[i].c, (unsigned long long)got[i].v, good.want[i].r, good.want[i].c, (unsigned long long)good.want[i].v); d = b; break; }
                violate("wrong-matrix", "%s: %s%s", nm, d.c_str(), fired ? " (after a read error)" : "");
            }
        }
        if (good.nnz) nontrivial(); free_rec(j);
        if (fs()[path] != s) violate("input-modified", "%s changed the file", nm);
    }
}
static Register r13({"C13", c13, "a run reads one generated or damaged text, possibly again with a failing disk; non-trivial when the text has entries; distinct by hash of all events", "read_mm_COO, read_COO, mm_io, glibc stdio and number parsing", "disk under stdio (short reads, read errors, open failures), memory allocator"});
