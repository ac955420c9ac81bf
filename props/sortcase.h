// One array to sort, and what its sorted form must satisfy.
#pragma once
#include "util.h"
#include "../guest/sort.h"
namespace api { inline const char *const sort_names[S_KINDS] = {"row-major triplets", "column-major triplets", "row-major elements", "column-major elements", "wide-row triplets", "wide-row elements", "Morton elements", "Morton triplets", "block elements", "block elements (equal blocks)", "block triplets"}; }
namespace sortcase {
using namespace sim; using namespace api;
struct SortCase { SortJob j; std::vector<Rec> in; std::vector<uint32_t> roff, coff; std::vector<uint64_t> base; };
inline uint64_t morton(uint32_t r, uint32_t c) { uint64_t k = 0; for (int i = 0; i < 16; i++) { k |= (uint64_t)((r >> i) & 1) << (2 * i); k |= (uint64_t)((c >> i) & 1) << (2 * i + 1); } return k; }
inline uint32_t blk(const std::vector<uint32_t> &o, uint32_t i) { return (uint32_t)(std::upper_bound(o.begin(), o.end() - 1, i) - o.begin() - 1); }
inline std::pair<uint64_t, uint64_t> key(const SortCase &q, const Rec &e) {
    switch (q.j.kind) {
    case S_TRIP_ROW: case S_ELEM_ROW: return {e.r, e.c};
    case S_TRIP_COL: case S_ELEM_COL: return {e.c, e.r};
    case S_TRIP_WIDE: case S_ELEM_WIDE: return {e.r / q.j.width, (uint64_t)e.c << 32 | e.r};
    case S_MORTON16_E: case S_MORTON16_T: return {0, morton(e.r, e.c)};
    case S_BLOCK_ELEM: return {(uint64_t)blk(q.roff, e.r) * q.j.nbc + blk(q.coff, e.c), (uint64_t)e.r << 32 | e.c};
    case S_BLOCK_ELEM_EQ: return {(uint64_t)(e.r / q.j.bs_r) * q.j.nbc + e.c / q.j.bs_c, (uint64_t)e.r << 32 | e.c};
    default: return {(uint64_t)blk(q.roff, e.r) * q.j.nbc + blk(q.coff, e.c), 0};     // block order only
    }
}
inline void make_sort(SortCase &q, uint32_t maxn, int kind, int fixed_n = -1) {
    SortJob &j = q.j; j = SortJob(); j.kind = kind; j.dbl = choose(2) == 0; j.index = run_sort_u64 && choose(10) == 9; if (j.index) probe("index_64_bit");
    static const uint32_t caps[] = {60, 3, 499, 501, 1200, 2300, 4500, 9000};
    uint32_t cap = std::min(maxn, caps[choose(8)]); j.n = choose(4) == 3 ? cap : choose(cap + 1);
    if (maxn >= 9000 && choose(300) == 299) { j.n = choose(2) ? 16000 + choose(20000) : 65530 + choose(12); if (choose(12) == 11) { j.n = (1u << (17 + choose(4))) + choose(5) - 2; probe("a_million_elements"); } cfg.step_cap = 2000000000ull; probe("large_arrays"); }
    if (fixed_n >= 0) j.n = (uint32_t)fixed_n;
    uint32_t dims[] = {50, 1, 3, 400, 40000, 65535}; uint32_t R = dims[choose(6)], C = dims[choose(6)];
    uint32_t shape = choose(6); Rng g(seed32());
    if (choose(10) == 9 && j.kind != S_MORTON16_E && j.kind != S_MORTON16_T) { R = C = 0xffffffffu; probe("full_range_keys"); }
    for (uint32_t i = 0; i < j.n; i++) {
        Rec e{g.below(R), g.below(C), (double)i, 7000000u + i};
        if (shape == 1) { e.r = (uint32_t)((uint64_t)i * R / (j.n ? j.n : 1)); e.c = e.c % 2; }
        if (shape == 2) { e.r = (uint32_t)((uint64_t)(j.n - 1 - i) * R / j.n); }
        if (shape == 3) { e.r = e.c = 0; }
        if (shape == 4) { uint32_t h = (i < j.n / 2) ? i : j.n - i; e.r = h % R; e.c = (h / 3) % C; }
        if (shape == 5) { e.r %= 2; e.c %= 2; }
        q.in.push_back(e);
    }
    if (choose(3) == 2) std::stable_sort(q.in.begin(), q.in.end(), [](const Rec &a, const Rec &b) { return a.c != b.c ? a.c < b.c : a.r < b.r; });
    j.width = range(1, 40); j.bs_r = range(1, R); j.bs_c = range(1, C); if (R > 1000) j.bs_r = (R - 1) / range(1, 30) + 1; if (C > 1000) j.bs_c = (C - 1) / range(1, 30) + 1;
    j.nbc = 1; j.nbr = 1;
    if (j.kind == S_BLOCK_ELEM || j.kind == S_BLOCK_TRIP) { q.roff = gen_offsets(R, std::max(1u, R / range(1, 12))); q.coff = gen_offsets(C, std::max(1u, C / range(1, 12))); j.nbr = (uint32_t)q.roff.size() - 1; j.nbc = (uint32_t)q.coff.size() - 1; j.roff = q.roff.data(); j.coff = q.coff.data(); }
    if (j.kind == S_BLOCK_ELEM_EQ) j.nbc = (C - 1) / j.bs_c + 1;
    if (choose(6) == 5) {                                        // in order but for a few elements
        std::stable_sort(q.in.begin(), q.in.end(), [&](const Rec &a, const Rec &b) { return key(q, a) < key(q, b); });
        if (j.n > 1) for (uint32_t k = choose(4); k-- > 0;) std::swap(q.in[g.below(j.n)], q.in[g.below(j.n)]);
        probe("nearly_sorted");
    }
    for (uint32_t i = 0; i < j.n; i++) q.in[i].v = i;
    j.rec = new Rec[j.n + 1]; for (uint32_t i = 0; i < j.n; i++) j.rec[i] = q.in[i];
    note("sort %s<%s> of %u elements, keys %ux%u", api::sort_names[j.kind], j.dbl ? "double" : "float", j.n, R, C);
}
inline void verify_sort(SortCase &q, const char *ctx) {
    SortJob &j = q.j; const char *nm = api::sort_names[j.kind]; bool stable = j.kind != S_BLOCK_TRIP, elem = j.kind == S_ELEM_ROW || j.kind == S_ELEM_COL || j.kind == S_ELEM_WIDE;
    std::vector<char> seen(j.n, 0);
    for (uint32_t i = 0; i < j.n; i++) {
        const Rec &e = j.rec[i];
        uint32_t id = e.v >= 0 && e.v < j.n ? (uint32_t)e.v : j.n;
        if (id >= j.n || (double)id != e.v || seen[id]) violate("lost-element", "%s%s: element %u of %u is duplicated or unknown", nm, ctx, i, j.n);
        seen[id] = 1;
        if (q.in[id].r != e.r || q.in[id].c != e.c || (elem && q.in[id].block != e.block)) violate("torn-element", "%s%s: value %u is attached to (%u,%u), it was at (%u,%u)", nm, ctx, id, e.r, e.c, q.in[id].r, q.in[id].c);
        if (i) {
            auto a = key(q, j.rec[i - 1]), b = key(q, e);
            if (b < a) violate("not-sorted", "%s%s: element %u of %u is out of order", nm, ctx, i, j.n);
            if (stable && a == b && j.rec[i - 1].v > e.v) violate("not-stable", "%s%s: equal elements %u and %u changed their order", nm, ctx, (uint32_t)j.rec[i - 1].v, (uint32_t)e.v);
        }
        if ((j.kind == S_BLOCK_ELEM || j.kind == S_BLOCK_ELEM_EQ) && e.block != key(q, e).first) violate("wrong-block", "%s: element (%u,%u) got block %u, expected %llu", nm, e.r, e.c, e.block, (unsigned long long)key(q, e).first);
    }
    delete[] j.rec;
}
}
using namespace sortcase;
