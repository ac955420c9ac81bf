// C09 / C10: permutations and index expansion.
#include "util.h"
#include "../guest/sort.h"
using namespace sim; using namespace api;
static std::vector<uint32_t> random_perm(uint32_t n) {
    std::vector<uint32_t> p(n); for (uint32_t i = 0; i < n; i++) p[i] = i; Rng g(seed32());
    auto shuffle = [&](uint32_t a, uint32_t z) { for (uint32_t i = z; i > a + 1; i--) std::swap(p[i - 1], p[a + g.below(i - a)]); };
    switch (choose(8)) {
    case 4: if (n > 1) for (uint32_t k = 1 + choose(3); k; k--) std::swap(p[g.below(n)], p[g.below(n)]); break;            // almost the identity
    case 5: { uint32_t a = choose(2) ? std::min(n, 64u) : choose(n + 1); choose(2) ? shuffle(a, n) : shuffle(0, n - a); break; }            // moves one end only
    case 6: { uint32_t b = range(2, 70); for (uint32_t i = 0; i < n; i += b) shuffle(i, std::min(n, i + b)); break; }       // moves little
    case 7: for (uint32_t i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]); break;
    case 0: for (uint32_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]); break; case 1: std::reverse(p.begin(), p.end()); break; case 2: if (n) std::rotate(p.begin(), p.begin() + g.below(n), p.end()); break; }
    return p;
}
static uint32_t any_n(uint32_t max) { if (choose(10) == 9) return special_size(max); if (choose(50) == 49) return choose(20000); if (choose(400) == 399) { probe("beyond_16_bits"); cfg.step_cap = 2000000000ull; return 65530 + choose(choose(2) ? 12 : 80000); } static const uint32_t c[] = {200, 0, 1, 2, 64, 65, 128, 700, 5000}; uint32_t cap = std::min(max, c[choose(9)]); return choose(2) ? cap : choose(cap + 1); }
void (*c09_tool)(std::vector<uint32_t>, bool);      // linked for C09 only
static void c09() {
    random_schedule_config(); set_workers(any_workers()); cfg.race = RACE_ALL;
    uint32_t n = any_n(3000); std::vector<uint32_t> p = random_perm(n); uint32_t *gp = garray(p), *inv = nullptr;
    if (c09_tool && choose(6) == 5) { c09_tool(p, true); return; }
    bool wide = do_invert_u64 && choose(12) == 11; if (wide) probe("index_64_bit");
    note("permutation of %u%s", n, wide ? ", 64-bit indices" : "");
    guest([&] { inv = wide ? do_invert_u64(gp, n) : do_invert(gp, n); });
    for (uint32_t i = 0; i < n; i++) { if (gp[i] != p[i]) violate("input-changed", "inverting changed the permutation at %u", i); if (inv[p[i]] != i) violate("wrong-inverse", "inverse[%u] = %u, expected %u (size %u)", p[i], inv[p[i]], i, n); }
    random_schedule_config(); set_workers(any_workers());
    if (n == 0) return;
    uint32_t k = any_n(4000); Rng g(seed32()); uint32_t kind = choose(3);
    if (kind < 2) {
        std::vector<uint32_t> idx(k); for (auto &v : idx) v = g.below(n);
        uint32_t *gi = garray(idx);
        guest([&] { wide ? do_permute_u64(gi, gp, k) : do_permute(gi, gp, k); });
        for (uint32_t i = 0; i < k; i++) if (gi[i] != p[idx[i]]) violate("wrong-image", "index %u of %u: %u was replaced by %u, its image is %u", i, k, idx[i], gi[i], p[idx[i]]);
        guest([&] { wide ? do_permute_u64(gi, inv, k) : do_permute(gi, inv, k); });
        for (uint32_t i = 0; i < k; i++) if (gi[i] != idx[i]) violate("not-restored", "permute and inverse permute turned %u into %u", idx[i], gi[i]);
    } else {
        std::vector<Rec> r(k); for (uint32_t i = 0; i < k; i++) r[i] = {g.below(n), g.below(n), (double)i, 0};
        std::vector<Rec> o = r; int elem = (int)choose(2); bool dbl = choose(2);
        guest([&] { (wide ? do_permute_points_u64 : do_permute_points)(r.data(), k, gp, elem, dbl); });
        for (uint32_t i = 0; i < k; i++) if (r[i].r != p[o[i].r] || r[i].c != p[o[i].c] || r[i].v != o[i].v) violate("wrong-image", "point %u: (%u,%u) became (%u,%u), expected (%u,%u)", i, o[i].r, o[i].c, r[i].r, r[i].c, p[o[i].r], p[o[i].c]);
        guest([&] { (wide ? do_permute_points_u64 : do_permute_points)(r.data(), k, inv, elem, dbl); });
        for (uint32_t i = 0; i < k; i++) if (r[i].r != o[i].r || r[i].c != o[i].c || r[i].v != o[i].v) violate("not-restored", "point %u did not return to (%u,%u)", i, o[i].r, o[i].c);
    }
    for (uint32_t i = 0; i < n; i++) if (gp[i] != p[i]) violate("input-changed", "permuting changed the permutation at %u", i);
}
// One expansion.  The blocks live at gb/go, which a second round uses again for fewer blocks.
static void c10_round(uint32_t *&gb, uint32_t *&go, uint32_t nb, uint32_t k, bool large = false) {
    Rng g(seed32()); bool vast = choose(30) == 29;
    static const uint32_t mx[] = {10, 1, 3, 64, 65, 1000, 100000, 32, 33}; uint32_t cap = mx[choose(9)], mode = choose(3); if (large) { cap = (1u << choose(31)) + choose(4); probe("large_blocks"); } if (nb > 40000) cap = std::min(cap, 1000u);
    std::vector<uint32_t> bs(nb), off(nb + 1, 0);
    for (uint32_t i = 0; i < nb; i++) bs[i] = mode == 0 ? 1 + g.below(cap) : mode == 1 ? cap : (g.below(4) ? 1 : cap);
    if (choose(6) == 5) for (uint32_t i = 0; i < nb; i++) if (g.below(3) == 0 && i + 1 < nb) bs[i] = 0;
    if (vast) { probe("vast"); uint64_t fit = 0xffffffffull / nb; uint32_t p2 = 1; while (2ull * p2 <= fit) p2 *= 2;       // around what the index type can hold
        uint32_t top = choose(3) == 2 ? (p2 > 1u << 30 ? 0xffffffffu : p2 + 1 + choose(p2)) : p2 - choose(std::min(p2, 3u)); bs[g.below(nb)] = top; if (choose(2)) bs[g.below(nb)] = top; if (choose(4) == 3) bs[nb - 1] = top; }
    if (*std::max_element(bs.begin(), bs.end()) == 0) bs[0] = 1;
    uint64_t sum = 0; for (uint32_t v : bs) sum += v;
    for (uint32_t i = 0; i < nb; i++) off[i + 1] = off[i] + bs[i];
    uint64_t want64 = 1; uint32_t m = *std::max_element(bs.begin(), bs.end()); while (want64 < m) want64 *= 2;
    bool fits = sum <= 0xffffffffull && want64 * nb <= 0xffffffffull; uint32_t want = (uint32_t)want64; bool wide = fits && do_expand_u64 && choose(12) == 11; if (wide) probe("index_64_bit");
    note("expand %u indices, %u blocks of at most %u", k, nb, m);
    if (gb) memcpy(gb, bs.data(), nb * 4); else gb = garray(bs);
    if (go) memcpy(go, off.data(), (nb + 1) * 4); else go = garray(off);
    uint32_t sz = 0; Result res; std::string ctx;
    auto refused = [&](std::function<void()> f) { res = guarded([&] { guest(f); }); if (res.outcome == RETURNED) { if (!fits) violate("overflow", "%u blocks of up to %u expand beyond the index type unnoticed", nb, m); return false; }
        if (res.outcome == CRASHED || fits) violate("refused", "%u blocks of up to %u: %s", nb, m, res.msg.c_str()); probe("refused"); nontrivial(); return true; };
    if (fits || choose(2)) { if (refused([&] { sz = (wide ? do_expand_size_u64 : do_expand_size)(gb, nb); })) return; }
    if (fits && sz != want) violate("wrong-size", "largest block %u expands to %u, expected %u", m, sz, want);
    auto blk = [&](uint32_t i) { return (uint32_t)(std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1); };
    uint32_t total = fits ? off[nb] : 1;
    std::vector<uint32_t> idx(k); for (auto &v : idx) v = g.below(total);
    if (choose(2) && k >= total) for (uint32_t i = 0; i < total; i++) idx[i] = i;
    if (nb > 60000 || choose(3)) {
        uint32_t *gi = garray(idx), r = 0;
        if (refused([&] { r = (wide ? do_expand_u64 : do_expand)(gi, k, gb, nb); })) return;
        if (r != want) violate("wrong-size", "expand_indeces returned block size %u, expected %u", r, want);
        std::map<uint32_t, uint32_t> from;
        for (uint32_t i = 0; i < k; i++) {
            uint32_t b = blk(idx[i]), w = b * want + (idx[i] - off[b]);
            if (gi[i] != w) violate("wrong-index", "index %u in block %u expanded to %u, expected %u", idx[i], b, gi[i], w);
            auto it = from.insert({gi[i], idx[i]}); if (it.first->second != idx[i]) violate("collision", "positions %u and %u both expanded to %u", it.first->second, idx[i], gi[i]);
        }
    } else {
        std::vector<Rec> r(k); for (uint32_t i = 0; i < k; i++) { uint32_t c = g.below(total); r[i] = {idx[i], c, (double)i, fits ? blk(idx[i]) * nb + blk(c) : 0}; }
        std::vector<Rec> o = r; uint32_t ret = 0; bool dbl = choose(2);
        if (refused([&] { ret = (wide ? do_expand_elements_u64 : do_expand_elements)(r.data(), k, gb, go, nb, dbl); })) return;
        if (ret != want) violate("wrong-size", "expand_indeces returned block size %u, expected %u", ret, want);
        for (uint32_t i = 0; i < k; i++) {
            uint32_t a = blk(o[i].r), c = blk(o[i].c), wr = a * want + o[i].r - off[a], wc = c * want + o[i].c - off[c];
            if (r[i].r != wr || r[i].c != wc || r[i].v != o[i].v || r[i].block != o[i].block) violate("wrong-index", "element (%u,%u) expanded to (%u,%u), expected (%u,%u)", o[i].r, o[i].c, r[i].r, r[i].c, wr, wc);
        }
    }
    for (uint32_t j = choose(2) ? 1 : 12; j; j--) {
        uint32_t one = g.below(4) == 0 ? off[g.below(nb)] : g.below(total), b = blk(one), e = 0; if (one >= total) continue;
        guest([&] { e = (wide ? do_expand_index_u64 : do_expand_index)(go, nb, want, one); });
        if (e != b * want + (one - off[b])) violate("wrong-index", "expand_index(%u) = %u, expected %u", one, e, b * want + (one - off[b]));
    }
    for (uint32_t i = 0; i < nb; i++) if (gb[i] != bs[i]) violate("input-changed", "expanding changed the block sizes");
    for (uint32_t i = 0; i <= nb; i++) if (go[i] != off[i]) violate("input-changed", "expanding changed the block offsets");
}
static void c10() {
    random_schedule_config(); set_workers(any_workers()); cfg.race = RACE_ALL;
    uint32_t nb = 1 + choose(choose(3) == 2 ? 300 : 20), k = any_n(3000), *gb = nullptr, *go = nullptr;
    if (choose(300) == 299) { nb = 65530 + choose(choose(2) ? 12 : 20000); probe("many_blocks"); }
    bool large = nb < 400 && choose(5) == 4; if (large) nb = 1 + nb % 8;
    c10_round(gb, go, nb, k, large);
    if (choose(3) == 2) { random_schedule_config(); set_workers(any_workers()); probe("second_round"); c10_round(gb, go, 1 + choose(nb), any_n(500), choose(5) == 4); }
}
static Register r9({"C09", c09, "a run inverts one permutation and applies it and its inverse to indices or points, or runs the permutation tools one after the other on files; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "invert_permutation, permute_indeces, the permute and ipermute tools with the array reader and writer", "OpenMP runtime, memory allocator, disk under stdio"});
static Register r10({"C10", c10, "a run expands one index or element array; counted when a choice among several runnable workers was made or a fault fired; distinct by hash of all events",
    "expand_block_size, expand_index, expand_indeces", "OpenMP runtime, memory allocator"});
