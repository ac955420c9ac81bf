// C09, second part: the permutation tools write exactly the images, and one undoes the other.
#include "tools.h"
using namespace sim;
static std::string u32s(const std::vector<uint32_t> &v) { return std::string((const char *)v.data(), v.size() * 4); }
extern void (*c09_tool)(std::vector<uint32_t> perm, bool race);
static void tool(std::vector<uint32_t> p, bool race) {
    cfg.race = race ? RACE_ALL : RACE_OFF; Rng g(seed32()); uint32_t n = (uint32_t)p.size(); std::vector<uint32_t> idx[2];
    for (auto &v : idx) { static const uint32_t c[] = {30, 0, 1, 300, 2000}; uint32_t k = n ? c[choose(5)] : 0; for (uint32_t i = 0; i < k; i++) v.push_back(g.below(n)); if (choose(3) == 2) std::sort(v.begin(), v.end()); }
    if (choose(2)) idx[1].resize(idx[0].size(), n ? g.below(n) : 0);
    fs_mkdir("/d"); fs()["/d/perm"] = u32s(p); fs()["/d/r"] = u32s(idx[0]); fs()["/d/c"] = u32s(idx[1]);
    bool inverse_first = choose(2); note("%s on %zu and %zu indices with a permutation of %u", inverse_first ? "ipermute, permute" : "permute, ipermute", idx[0].size(), idx[1].size(), n);
    std::string r = "/d/r", c = "/d/c"; std::vector<uint32_t> now[2] = {idx[0], idx[1]}, inv(n); for (uint32_t i = 0; i < n; i++) inv[p[i]] = i;
    for (int step = 0; step < 2; step++) {
        io.short_ops = choose(2); io.random_buf = choose(2); random_schedule_config(); set_workers(any_workers()); if (choose(2)) cfg.preempt = false;
        bool inverse = inverse_first != (step == 1); Exit e = run_tool(inverse ? tool_ipermute_main : tool_permute_main, {"permute", r, c, "/d/perm"});
        if (!e.ended || e.status) violate("tool-failed", "%s on healthy storage: %s, status %d", inverse ? "ipermute" : "permute", outcome_name(e.r.outcome), e.status);
        for (int k = 0; k < 2; k++) {
            for (auto &v : now[k]) v = inverse ? inv[v] : p[v];
            std::string path = (k ? c : r) + ".permuted"; if (!fs().count(path) || fs()[path] != u32s(now[k])) violate("wrong-image", "%s wrote a file that does not hold the %s of the indices", inverse ? "ipermute" : "permute", inverse ? "inverse images" : "images");
        }
        if (fs()["/d/r"] != u32s(idx[0]) || fs()["/d/c"] != u32s(idx[1]) || fs()["/d/perm"] != u32s(p)) violate("input-changed", "a permutation tool changed its input");
        r += ".permuted"; c += ".permuted";
    }
    for (int k = 0; k < 2; k++) if (now[k] != idx[k]) violate("harness-limit", "images"); 
    probe("tool_round_trip"); nontrivial();
}
static struct Init { Init() { c09_tool = tool; } } init;
