// C19: the command line tools under crashes and storage faults.
#include "tools.h"
#include <cstdio>
#include <set>
using namespace sim; using namespace api;
typedef std::vector<uint32_t> U;
enum Tool { CONVERT, CBLOCKED, EXPANDED, PERMUTE, IPERMUTE, SORT, PREPARE, D2F, O2Z, TOOLS };
static const char *const tname[] = {"convert", "convert_blocked", "expanded", "permute", "ipermute", "sort", "prepare", "double2float", "one2zero"};
static int (*const tmain[])(int, char **) = {tool_convert_main, tool_convert_blocked_main, tool_expanded_main, tool_permute_main, tool_ipermute_main, tool_sort_main, tool_prepare_main, tool_double2float_main, tool_one2zero_main};
enum OutKind { BIN, BLK, TXT, RAW, TRIPLE };
enum Order { ANY_ORDER, BY_ROW, BY_COL, BY_BLOCK };
struct Out { OutKind kind; std::vector<std::string> path; Content c; Order order = ANY_ORDER; std::string raw; };
struct Scene { int tool; std::vector<std::string> args, inputs; std::vector<Out> outs; bool either = false, must_fail = false, text = false; uint32_t entries = 0; const char *why = ""; };

static std::string u32s(const U &v) { return std::string((const char *)v.data(), v.size() * 4); }
static std::pair<uint64_t, uint64_t> key(const Content &c, Order o, const Bits &b) { if (o == BY_ROW) return {b.r, b.c}; if (o == BY_COL) return {b.c, b.r}; if (o == BY_BLOCK) return {b.block, 0}; return {0, 0}; }
static std::string match(const Out &o, Content got) {
    char b[200]; const Content &w = o.c;
    if (o.kind != TRIPLE && (got.rows != w.rows || got.cols != w.cols)) { snprintf(b, sizeof b, "shape %ux%u, expected %ux%u", got.rows, got.cols, w.rows, w.cols); return b; }
    if (got.rec.size() != w.rec.size()) { snprintf(b, sizeof b, "%zu entries, expected %zu", got.rec.size(), w.rec.size()); return b; }
    for (size_t i = 1; i < got.rec.size(); i++) if (key(got, o.order, got.rec[i]) < key(got, o.order, got.rec[i - 1])) { snprintf(b, sizeof b, "entries %zu and %zu are out of order", i - 1, i); return b; }
    auto lt = [](const Bits &x, const Bits &y) { return x.r != y.r ? x.r < y.r : x.c != y.c ? x.c < y.c : x.v < y.v; };
    std::vector<Bits> x = got.rec, y = w.rec; std::sort(x.begin(), x.end(), lt); std::sort(y.begin(), y.end(), lt);
    for (size_t i = 0; i < x.size(); i++) if (x[i].r != y[i].r || x[i].c != y[i].c || x[i].v != y[i].v || (o.kind == BLK && x[i].block != y[i].block)) { snprintf(b, sizeof b, "an entry is (%u,%u,%llx) block %u, expected (%u,%u,%llx) block %u", x[i].r, x[i].c, (unsigned long long)x[i].v, x[i].block, y[i].r, y[i].c, (unsigned long long)y[i].v, y[i].block); return b; }
    return "";
}
static uint32_t g32(const std::string &s, size_t at) { uint32_t v = 0; if (at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static uint64_t gv(const std::string &s, size_t at, bool d) { uint64_t v = 0; memcpy(&v, &s[at], d ? 8 : 4); return v; }
// empty string if the output is complete and right
static std::string examine(const Out &o) {
    for (auto &p : o.path) if (!fs().count(p)) return p + " does not exist";
    const std::string &s = fs()[o.path[0]]; Content g; g.dbl = o.c.dbl; size_t vs = g.dbl ? 8 : 4;
    if (o.kind == RAW) return s == o.raw ? "" : o.path[0] + " has other contents than expected";
    if (o.kind == BIN) {
        if (s.size() < 12) return "no header"; g.rows = g32(s, 0); g.cols = g32(s, 4); size_t n = g32(s, 8); if (s.size() != 12 + n * (8 + vs)) return "file has " + std::to_string(s.size()) + " bytes for " + std::to_string(n) + " entries";
        for (size_t i = 0; i < n; i++) g.rec.push_back({g32(s, 12 + 4 * i), g32(s, 12 + 4 * n + 4 * i), gv(s, 12 + 8 * n + vs * i, g.dbl), 0});
    } else if (o.kind == BLK) {
        if (s.size() < 24) return "no header"; g.rows = g32(s, 0); g.cols = g32(s, 4); size_t n = g32(s, 8); if (s.size() != 24 + n * (12 + vs)) return "file has " + std::to_string(s.size()) + " bytes for " + std::to_string(n) + " entries";
        if (g32(s, 12) != o.c.roff.size() - 1 || g32(s, 16) != o.c.coff.size() - 1 || g32(s, 20) != o.c.nblocks) return "header announces " + std::to_string(g32(s, 12)) + "x" + std::to_string(g32(s, 16)) + " blocks, " + std::to_string(g32(s, 20)) + " of them not empty";
        for (size_t i = 0; i < n; i++) { size_t q = 24 + i * (12 + vs); g.rec.push_back({g32(s, q + 4), g32(s, q + 8), gv(s, q + 12, g.dbl), g32(s, q)}); }
    } else if (o.kind == TRIPLE) {
        const std::string &c = fs()[o.path[1]], &v = fs()[o.path[2]]; size_t n = s.size() / 4; if (s.size() != 4 * n || c.size() != 4 * n || v.size() != vs * n) return "arrays of " + std::to_string(s.size()) + ", " + std::to_string(c.size()) + " and " + std::to_string(v.size()) + " bytes";
        for (size_t i = 0; i < n; i++) g.rec.push_back({g32(s, 4 * i), g32(c, 4 * i), gv(v, vs * i, g.dbl), 0});
    } else {
        size_t p = 0; std::string l; bool first = true, have = false; size_t n = 0;
        while (p < s.size()) {
            size_t e = s.find('\n', p); if (e == std::string::npos) return "last line is cut"; l = s.substr(p, e - p); p = e + 1;
            if (first) { first = false; if (l != "%%MatrixMarket matrix coordinate real general") return "banner is " + l; continue; }
            if (l.empty() || l[0] == '%') continue;
            if (!have) { unsigned a, b, k; if (sscanf(l.c_str(), "%u %u %u", &a, &b, &k) != 3) return "size line is " + l; g.rows = a; g.cols = b; n = k; have = true; continue; }
            unsigned a, b; double v; if (sscanf(l.c_str(), "%u %u %lg", &a, &b, &v) != 3) return "entry is " + l; uint64_t bits = 0; if (g.dbl) memcpy(&bits, &v, 8); else { float f = (float)v; memcpy(&bits, &f, 4); } g.rec.push_back({a - 1, b - 1, bits, 0});
        }
        if (!have) return "no size line"; if (g.rec.size() != n) return std::to_string(g.rec.size()) + " entries, size line says " + std::to_string(n);
    }
    // block order of a file that carries no block numbers
    if (o.order == BY_BLOCK && o.kind != BLK) { uint32_t nbc = (uint32_t)o.c.coff.size() - 1; auto blk = [](const U &f, uint32_t i) { return (uint32_t)(std::upper_bound(f.begin(), f.end() - 1, i) - f.begin() - 1); }; for (auto &b : g.rec) b.block = blk(o.c.roff, b.r) * nbc + blk(o.c.coff, b.c); }
    return match(o, g);
}
static Content scattered(uint32_t dim, uint32_t n, bool dbl, uint32_t dim_c) {
    Content c; c.dbl = dbl; c.rows = dim; c.cols = dim_c; Rng g(seed32()); std::set<std::pair<uint32_t, uint32_t>> used; uint32_t dense = choose(3) == 2 ? 1 + dim / 8 : dim;
    for (uint32_t i = 0; i < n; i++) { uint32_t r = g.below(dense ? dense : 1) % dim, k = g.below(dim_c); if (g.below(10) && !used.insert({r, k}).second) continue; c.rec.push_back({r, k, any_value(g, dbl, FINITE), 0}); }
    return c;
}
static U sizes_to_off(const U &s) { U o{0}; for (uint32_t x : s) o.push_back(o.back() + x); return o; }
static void smallest_shape(Content &c) { c.rows = c.cols = 1; for (auto &b : c.rec) { c.rows = std::max(c.rows, b.r + 1); c.cols = std::max(c.cols, b.c + 1); } }
static Scene make(int tool = -1, uint32_t entries = UINT32_MAX) {
    Scene s; s.tool = tool < 0 ? (int)choose(TOOLS) : tool; const std::string d = "/d/"; std::string out = choose(10) == 9 ? "out.bin" : "out";
    static const char *const suffix[] = {"", "", "", ".permuted", ".permuted", ".sorted", "", ".float", ".zero"}; std::string sfx = choose(8) == 7 ? suffix[s.tool] : ""; bool longname = choose(12) == 11; s.args = {tname[s.tool]};
    auto stretch = [&](std::string n) { if (!longname || choose(2)) return n; s.either = true; static const uint32_t edge[] = {118, 117, 119, 127, 128, 235, 236, 237, 245, 246, 247, 255}; uint32_t len = choose(3) ? edge[choose(12)] : choose(2) ? range(80, 160) : range(200, 300); while (n.size() < len) n += "abcdefghij"[n.size() % 10]; return n; };
    auto in = [&](const std::string &path, const std::string &bytes) { fs()[path] = bytes; s.inputs.push_back(path); s.args.push_back(path); };
    static const uint32_t ds[] = {12, 1, 3, 40, 150}; uint32_t dim = range(1, ds[choose(5)]), n = entries != UINT32_MAX ? entries : choose(3) ? choose(40) : choose(10) == 9 ? 2500 : choose(300); s.entries = n;
    bool large = entries == UINT32_MAX && choose(150) == 149; auto many = [&] { static const uint32_t b[] = {4096, 8192, 5000, 16384, 20000}; uint32_t k = b[choose(5)]; if (choose(20) == 19) { k = 1u << (16 + choose(4)); probe("millions_of_records"); } return choose(2) ? k : k + choose(k); };
    if (large) { dim = range(1, choose(2) ? 5000 : 100000); s.entries = n = many(); cfg.step_cap = 2000000000ull; probe("thousands_of_records"); }
    // block sizes, some of them empty
    U bs; uint32_t left = dim, mb = range(1, dim); while (left) { if (choose(10) == 9) bs.push_back(0); uint32_t b = std::min(left, choose(2) ? mb : range(1, mb)); bs.push_back(b); left -= b; if (bs.size() > 200) { bs.push_back(left); break; } } U off = sizes_to_off(bs);
    U perm(dim); for (uint32_t i = 0; i < dim; i++) perm[i] = i; { Rng g(seed32()); for (uint32_t i = dim; i > 1; i--) std::swap(perm[i - 1], perm[g.below(i)]); }
    bool dbl = s.tool == SORT; Content c = scattered(dim, n, dbl, dim);
    auto three = [&](const Content &k, const char *a, const char *b, const char *v) { in(stretch(d + a) + sfx, bytes_idx(k, false)); in(stretch(d + b) + sfx, bytes_idx(k, true)); in(stretch(d + v) + sfx, bytes_val(k)); };
    auto blocked = [&](Content k, const std::string &path) { k.rows = k.cols = dim; k.roff = k.coff = off; block_sort(k); Out o; o.kind = BLK; o.path = {path}; o.c = k; o.order = BY_BLOCK; return o; };
    auto expanded = [&](Content k, const std::string &base) {
        uint64_t e = 0; for (uint32_t x : bs) e = std::max<uint64_t>(e, x); uint64_t p = e ? 1 : 0; while (p < e) p *= 2; auto bi = [&](uint32_t i) { return (uint32_t)(std::upper_bound(off.begin(), off.end() - 1, i) - off.begin() - 1); };
        for (auto &b : k.rec) { uint32_t br = bi(b.r), bc = bi(b.c); b.r = (uint32_t)(br * p + b.r - off[br]); b.c = (uint32_t)(bc * p + b.c - off[bc]); }
        k.rows = k.cols = (uint32_t)(p * bs.size()); Out o; o.kind = BIN; o.path = {base + ".exp" + std::to_string(p)}; o.c = k; o.order = BY_COL; return o; };
    switch (s.tool) {
    case CONVERT: {
        three(c, "r.arr", "c.arr", "v.arr"); std::string o = stretch(d + out); s.args.push_back(o); static const char *const m[] = {"all", "bin", "mtx"}; int k = choose(3); s.args.push_back(m[k]); smallest_shape(c);
        if (k != 1) { Out x; x.kind = TXT; x.path = {o + ".mtx"}; x.c = c; x.order = BY_COL; s.outs.push_back(x); } if (k != 2) { Out x; x.kind = BIN; x.path = {o + ".bin"}; x.c = c; x.order = BY_COL; s.outs.push_back(x); } break; }
    case CBLOCKED: { three(c, "r.arr", "c.arr", "v.arr"); in(stretch(d + "bs.arr"), u32s(bs)); std::string o = stretch(d + "out.block"); s.args.push_back(o); s.outs.push_back(blocked(c, o)); break; }
    case EXPANDED: { three(c, "r.arr", "c.arr", "v.arr"); in(stretch(d + "bs.arr"), u32s(bs)); std::string o = stretch(d + out); s.args.push_back(o); s.outs.push_back(expanded(c, o)); break; }
    case PERMUTE: case IPERMUTE: {
        U r, k; Rng g(seed32()); uint32_t nr = large ? many() : choose(3) ? choose(60) : choose(400), nc = choose(2) ? nr : choose(60); for (uint32_t i = 0; i < nr; i++) r.push_back(g.below(dim)); for (uint32_t i = 0; i < nc; i++) k.push_back(g.below(dim));
        in(stretch(d + "r.arr") + sfx, u32s(r)); in(stretch(d + "c.arr") + sfx, u32s(k)); in(stretch(d + "perm.arr"), u32s(perm)); U img(dim); for (uint32_t i = 0; i < dim; i++) if (s.tool == PERMUTE) img[i] = perm[i]; else img[perm[i]] = i;
        for (auto &x : r) x = img[x]; for (auto &x : k) x = img[x];
        for (int i = 0; i < 2; i++) { Out o; o.kind = RAW; o.path = {s.args[1 + i] + ".permuted"}; o.raw = u32s(i ? k : r); s.outs.push_back(o); } break; }
    case SORT: {
        bool mm = choose(2), blk = choose(2); Content src = c; if (!mm) { three(c, "r.arr", "c.arr", "v.arr"); smallest_shape(c); }
        else {
            bool sym = choose(3) == 2; std::string t = std::string("%%MatrixMarket matrix coordinate real ") + (sym ? "symmetric" : "general") + "\n% made by the simulator\n"; std::set<std::pair<uint32_t, uint32_t>> used; Content k = c; k.rec.clear(); std::string body; size_t m = 0;
            for (auto &b : c.rec) { uint32_t r = b.r, q = b.c; if (sym) { if (r < q) std::swap(r, q); if (!used.insert({r, q}).second) continue; } double v; memcpy(&v, &b.v, 8); char l[90]; snprintf(l, sizeof l, "%u %u %.17g\n", r + 1, q + 1, v); body += l; m++; k.rec.push_back({r, q, b.v, 0}); if (sym && r != q) k.rec.push_back({q, r, b.v, 0}); }
            t += std::to_string(dim) + " " + std::to_string(dim) + " " + std::to_string(m) + "\n" + body; in(stretch(d + "m.mtx") + sfx, t); c = k; s.text = true; }
        if (blk) in(stretch(d + "bs.arr"), u32s(bs)); Out o; o.c = c; o.c.roff = o.c.coff = off; o.order = blk ? BY_BLOCK : BY_ROW;
        if (mm) { o.kind = TXT; o.path = {s.args[1] + ".sorted"}; } else { o.kind = TRIPLE; o.path = {s.args[1] + ".sorted", s.args[2] + ".sorted", s.args[3] + ".sorted"}; } s.outs.push_back(o); break; }
    case PREPARE: {
        three(c, "r.arr", "c.arr", "v.arr"); in(stretch(d + "perm.arr"), u32s(perm)); in(stretch(d + "bs.arr"), u32s(bs)); std::string o = stretch(d + out); s.args.push_back(o); for (auto &b : c.rec) { b.r = perm[b.r]; b.c = perm[b.c]; }
        Out a; a.kind = BIN; a.path = {o + ".row"}; a.c = c; a.order = BY_ROW; s.outs.push_back(a); s.outs.push_back(blocked(c, o + ".block")); a.path = {o + ".col"}; a.order = BY_COL; s.outs.push_back(a); s.outs.push_back(expanded(c, o + ".col")); break; }
    case D2F: { uint32_t k = range(1, 3); for (uint32_t i = 0; i < k; i++) { Rng g(seed32()); uint32_t m = large ? many() : choose(3) ? choose(30) : choose(900); std::string a, b; for (uint32_t j = 0; j < m; j++) { uint64_t u = any_value(g, true, FINITE); double v; memcpy(&v, &u, 8); float f = (float)v; a.append((char *)&v, 8); b.append((char *)&f, 4); } std::string p = stretch(d + "v" + std::to_string(i)) + sfx; in(p, a); Out o; o.kind = RAW; o.path = {p + ".float"}; o.raw = b; s.outs.push_back(o); } break; }
    case O2Z: { uint32_t k = range(1, 3); for (uint32_t i = 0; i < k; i++) { Rng g(seed32()); uint32_t m = large ? many() : choose(3) ? choose(30) : choose(900); U a, b; for (uint32_t j = 0; j < m; j++) { uint32_t v = 1 + g.below(g.below(4) ? 500 : 0xffffffffu); a.push_back(v); b.push_back(v - 1); } std::string p = stretch(d + "i" + std::to_string(i)) + sfx; in(p, u32s(a)); Out o; o.kind = RAW; o.path = {p + ".zero"}; o.raw = u32s(b); s.outs.push_back(o); } break; }
    }
    // inputs no tool can make sense of
    if (choose(6) == 5 && !s.either) {
        switch (choose(6)) {
        case 4: {                                               // a command line that names too few or too many files
            if (s.tool == D2F || s.tool == O2Z) break;
            if (choose(4) == 3 && s.tool != SORT) { s.args.push_back("/d/extra"); s.either = true; break; }
            size_t keep = s.tool == SORT ? 1 : 1 + choose((uint32_t)s.args.size() - 1); s.args.resize(keep); s.must_fail = true; s.why = "arguments are missing"; fault("bad_command_line"); break; }
        case 5: { if (s.tool != CONVERT) break; static const char *const m[] = {"zip", "", "-", "a", "bi", "mt", "BIN"}; s.args.back() = m[choose(7)]; s.must_fail = true; s.why = "the kind of output is unknown"; fault("bad_command_line"); break; }
        case 0: { size_t k = choose((uint32_t)s.inputs.size()); std::string &b = fs()[s.inputs[k]]; bool text = s.text && k == 0; if (b.size() < 4 || text) break; bool val8 = s.tool == D2F || (s.tool == SORT && !s.text && k == 2); size_t el = val8 ? 8 : 4; bool part_of_three = s.inputs.size() >= 3 && k < 3 && s.tool != PERMUTE && s.tool != IPERMUTE && s.tool != D2F && s.tool != O2Z; size_t cut = choose((uint32_t)b.size()); if (cut % el == 0 && !part_of_three) cut++; if (cut >= b.size()) break; b.resize(cut); s.must_fail = true; s.why = "an input is cut short"; fault("truncated_input"); break; }
        case 1: { fs().erase(s.inputs[choose((uint32_t)s.inputs.size())]); s.must_fail = true; s.why = "an input is missing"; fault("missing_input"); break; }
        case 2: { if (s.tool == O2Z) { std::string &b = fs()[s.inputs[choose((uint32_t)s.inputs.size())]]; if (b.size() < 4) break; uint32_t z = 0; memcpy(&b[4 * choose((uint32_t)(b.size() / 4))], &z, 4); s.must_fail = true; s.why = "the indices are not one-based"; fault("bad_input"); }
                  else if (s.tool == PERMUTE || s.tool == IPERMUTE || s.tool == PREPARE) { std::string &b = fs()[s.inputs[choose(2)]]; if (b.size() < 4) break; uint32_t z = choose(2) ? dim : dim + choose(100000); memcpy(&b[4 * choose((uint32_t)(b.size() / 4))], &z, 4); s.must_fail = true; s.why = "an index is outside the permutation"; fault("bad_input"); } break; }
        default: { if (s.tool != CBLOCKED && s.tool != EXPANDED && s.tool != PREPARE && !(s.tool == SORT && (s.args.size() == 5 || s.args.size() == 3))) break; uint32_t m = 0; for (auto &o : s.outs) (void)o; for (auto &b : c.rec) m = std::max(m, std::max(b.r, b.c)); if (s.tool == SORT && s.args.size() == 3) m = dim - 1; if (c.rec.empty() || off.back() <= m) break; { std::string &b = fs()[s.inputs.back()]; U x; uint32_t sum = 0; for (uint32_t q : bs) { if (sum + q > m) { x.push_back(m > sum ? m - sum : 0); break; } x.push_back(q); sum += q; } b = u32s(x); s.must_fail = true; s.why = "the matrix does not fit in the blocks"; fault("bad_input"); } break; }
        }
    }
    return s;
}
static const char *how(const Exit &e, char *b) { if (e.ended) snprintf(b, 200, "exit status %d", e.status); else snprintf(b, 200, "%s: %s", outcome_name(e.r.outcome), e.r.msg.substr(0, 120).c_str()); return b; }
static void c19() {
    fs_mkdir("/d"); char b[220]; int tool = -1; uint32_t entries = UINT32_MAX;
    if (choose(3) == 2) {                                       // an earlier run, on another matrix, that was interrupted or failed
        Scene e = make(); tool = e.tool; if (choose(2)) entries = e.entries; io.kind = choose(3) ? IO_CRASH : IO_WRITE_ERR; io.at = choose(60); cfg.preempt = false; set_workers(1);
        run_tool(tmain[e.tool], e.args); io_reset(); for (auto &p : e.inputs) fs().erase(p); if (choose(2)) for (auto it = fs().begin(); it != fs().end();) { if (it->first.compare(0, 3, "/d/") == 0) it = fs().erase(it); else ++it; }
        probe(fs().empty() ? "nothing_left_behind" : "left_behind");
    }
    Scene s = make(tool, entries); fs()["/d/other"] = "bystander"; auto start = fs(); const char *nm = tname[s.tool];
    note("%s with %zu arguments, %zu input file(s)%s%s", nm, s.args.size() - 1, s.inputs.size(), s.must_fail ? ", " : "", s.why);
    static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x01};
    // stale outputs of an earlier run
    std::map<std::string, std::string> stale; if (choose(4) == 3) for (auto &o : s.outs) for (auto &p : o.path) { Rng g(seed32()); std::string x; size_t k = g.below(4000); for (size_t i = 0; i < k; i++) x += (char)g.next(); stale[p] = x; }
    IoStats dry; long written = 0; bool crashed = false;
    for (int t = 0; t < 4; t++) {
        io_reset(); if (crashed && choose(2)) probe("restart_after_crash"); else { fs() = start; for (auto &p : stale) fs()[p.first] = p.second; } auto before = fs(); shell_cmds.clear(); captured().clear();
        random_schedule_config(); set_workers(any_workers()); cfg.fill = fills[choose(4)]; if (choose(3)) cfg.preempt = false;
        static const int bufs[] = {0, 64, 512, 16, 1000, 100}; static int buf; if (t == 0) buf = bufs[choose(6)]; io.buf = buf; io.short_ops = choose(2); int kind = t == 0 || (crashed && choose(2)) ? 0 : 1 + (int)choose(7);
        switch (kind) {
        case 1: case 2: io.kind = IO_CRASH; io.at = choose((uint32_t)dry.ops + 1); break;
        case 3: io.kind = IO_WRITE_ERR; io.at = choose((uint32_t)dry.writes + 1); io.sticky = choose(2); break;
        case 4: io.kind = IO_NOSPACE; io.space = choose((uint32_t)written + 1); break;
        case 5: io.kind = IO_CLOSE_FAIL; io.at = choose((uint32_t)dry.closes + 1); break;
        case 6: io.kind = IO_OPEN_FAIL; io.at = choose((uint32_t)dry.opens + 1); break;
        case 7: io.kind = IO_READ_ERR; io.at = choose((uint32_t)dry.reads + 1); io.sticky = choose(2); break;
        }
        Exit e = run_tool(tmain[s.tool], s.args); bool fired = iostat.fired;
        if (t == 0) { dry = iostat; for (auto &o : s.outs) for (auto &p : o.path) written += fs().count(p) ? (long)fs()[p].size() : 0; if (s.tool == PREPARE) for (int k = 0; k < 2; k++) if (start.count(s.inputs[k])) written += (long)start[s.inputs[k]].size(); }
        std::set<std::string> names; for (auto &o : s.outs) for (auto &p : o.path) names.insert(p);
        for (auto &p : s.inputs) if (start.count(p) && (!fs().count(p) || fs()[p] != start[p])) violate("input-damaged", "%s changed its input %s (%s)", nm, p.c_str(), how(e, b));
        if (fs()["/d/other"] != "bystander") violate("input-damaged", "%s changed a file it was not given", nm);
        bool right = true; std::string wrong; for (auto &o : s.outs) { std::string w = examine(o); if (!w.empty()) { right = false; if (wrong.empty()) wrong = o.path[0].substr(0, 60) + ": " + w; } }
        if (e.ended && e.status == 0) {
            if (s.must_fail) violate("success-claimed", "%s ended with status 0 although %s", nm, s.why);
            if (!right) violate("wrong-output", "%s ended with status 0%s, but %s", nm, fired ? " after a storage fault" : "", wrong.c_str());
            nontrivial();
        } else if (!fired && !s.must_fail && !s.either) violate("spurious-failure", "%s failed without any fault: %s", nm, how(e, b));
        crashed = e.r.outcome == CRASHED;
        if (crashed) {
            IoPlan keep = io; io_reset(); cfg.malloc_limit = (size_t)1 << 24;
            for (auto &o : s.outs) if ((o.kind == BIN || o.kind == BLK) && fs().count(o.path[0]) && !(before.count(o.path[0]) && fs()[o.path[0]] == before[o.path[0]]) && !examine(o).empty()) {
                probe("partial_output"); IoJob j; j.dbl = o.c.dbl; j.f1 = o.path[0].c_str(); static const int br[] = {R_BLK_CSBR, R_BLK_CSBR2, R_BLK_CGBR16}; static const int cr[] = {R_BIN_C2, R_BIN_C3, R_CSR}; j.fn = o.kind == BLK ? br[choose(3)] : cr[choose(3)];
                if (o.kind == BLK) { j.nbr = (uint32_t)o.c.roff.size() - 1; j.nbc = (uint32_t)o.c.coff.size() - 1; j.roff = o.c.roff.data(); j.coff = o.c.coff.data(); }
                Result r = guarded([&] { guest([&] { run_io(j); }); }); close_all_silently();
                if (!failed(r, j)) violate("partial-accepted", "%s was interrupted and left %s with %zu bytes; %s accepts it", nm, o.path[0].c_str(), fs()[o.path[0]].size(), io_name[j.fn]);
            }
            cfg.malloc_limit = (size_t)1 << 28; io = keep;
        }
    }
}
static Register r19({"C19", c19, "a run starts one tool four times, once on healthy storage and three times with a crash or a storage fault; non-trivial when a fault fired or the tool succeeded; distinct by hash of all events", "all nine file tools with the readers, writers, sorts, permutation and expansion they use, glibc stdio buffering", "disk under stdio (crashes, torn writes, write, read, open and close errors, full disk, short transfers), system(), OpenMP runtime, memory allocator, clocks"});
