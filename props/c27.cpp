// C27: histories over several matrices: sources survive conversions, matrices share nothing.
#include "util.h"
using namespace sim; using namespace api;
static bool takes(int fmt, int kind) { switch (fmt) { case CSR_C2: case CSR2_C2: case CSWR16_C2: case CRCSR_C2: case COO1_C: case COO3: case DENSE_C2: case CSBR_C2: return kind == 2; default: return kind == 3; } }
static bool consumes(int fmt) { return fmt == CSBR_C2 || fmt >= CGBR16; }        // re-indexes its source inside blocks
static uint32_t maxdim(int fmt) { return fmt >= DENSE_C2 && fmt <= DENSE_PAR ? 130u : ~0u; }
struct Src { void *p; int kind; bool dbl, used = false; Matrix m; };
typedef std::vector<std::tuple<uint32_t, uint32_t, double>> Set;
static Set sequence(const Src &s) {
    uint32_t r, c, n; Set a; guest([&] { source_shape(s.p, s.kind, s.dbl, &r, &c, &n); });
    if (r != s.m.rows || c != s.m.cols || n != s.m.e.size()) violate("source-changed", "the source became %ux%u with %u entries, it was %s", r, c, n, shape_str(s.m).c_str());
    for (uint32_t i = 0; i < n; i++) { Ent e{}; guest([&] { source_entry(s.p, s.kind, s.dbl, i, &e); }); a.push_back({e.r, e.c, e.v}); }
    return a;
}
static Set entries(const Src &s) { Set a = sequence(s); std::sort(a.begin(), a.end()); return a; }
static bool reorders(int fmt, bool sorted) { return !(sorted || fmt == COO1_C || fmt == COO2 || fmt == COO3 || (fmt >= DENSE_C2 && fmt <= DENSE_PAR)); }   // the others copy entry by entry
static Set expected(const Matrix &m) { Set a; for (auto &e : m.e) a.push_back({e.r, e.c, e.v}); std::sort(a.begin(), a.end()); return a; }
static void c27() {
    random_schedule_config(); set_workers(any_workers());
    std::vector<Src *> srcs; std::vector<Built *> mats; uint32_t ops = 4 + choose(14), converted = 0, shared = 0;
    struct Clean { std::vector<Src *> &s; std::vector<Built *> &m; ~Clean() { for (auto *x : s) delete x; for (auto *x : m) delete x; } } clean{srcs, mats};
    auto new_source = [&] {
        Src *s = new Src; srcs.push_back(s); s->kind = 2 + (int)choose(2); s->dbl = choose(2) == 0; static const uint32_t md[] = {40, 130, 6, 500}; s->m = gen_matrix(md[choose(4)], 300); if (choose(3) == 2) std::stable_sort(s->m.e.begin(), s->m.e.end(), in_rows);
        Spec sp; sp.dbl = s->dbl; sp.rows = s->m.rows; sp.cols = s->m.cols; sp.ent = s->m.e.data(); sp.nnz = (uint32_t)s->m.e.size();
        guest([&] { s->p = make_source(sp, s->kind); }); note("source %zu: Coo%d<%s> %s", srcs.size() - 1, s->kind, s->dbl ? "double" : "float", shape_str(s->m).c_str());
    };
    auto drop_source = [&](size_t k, bool scramble) { Src *s = srcs[k]; note("%s source %zu", scramble ? "overwrite and release" : "release", k); guest([&] { if (scramble) source_scramble(s->p, s->kind, s->dbl); source_release(s->p, s->kind, s->dbl); }); delete s; srcs.erase(srcs.begin() + k); };
    auto drop_matrix = [&](size_t k) { Built *b = mats[k]; note("release matrix %zu", k); guest([&] { b->m->release(); }); delete b; mats.erase(mats.begin() + k); };
    new_source();
    for (uint32_t i = 0; i < ops; i++) {
        uint32_t op = choose(10); if (srcs.empty() || (op == 9 && srcs.size() < 3)) { new_source(); continue; }
        if (op <= 4) {                                                        // convert
            size_t k = choose((uint32_t)srcs.size()); Src *s = srcs[k]; std::vector<int> can;
            for (int f = 0; f < ALL_FMTS; f++) if (takes(f, s->kind) && std::max(s->m.rows, s->m.cols) <= maxdim(f)) can.push_back(f);
            int f = can[choose((uint32_t)can.size())]; if (mats.size() >= 6) drop_matrix(choose((uint32_t)mats.size()));
            Built *b = new Built(make_built(f, s->m, cfg.workers, true)); b->dbl = b->spec.dbl = s->dbl; b->spec.src = s->p; b->spec.ent = b->src.e.data(); Set was = sequence(*s); b->spec.sorted = f <= CSR2_C3 && std::is_sorted(was.begin(), was.end(), [](const Set::value_type &a, const Set::value_type &b) { return std::get<0>(a) < std::get<0>(b); }) && choose(2); bool copies = !reorders(f, b->spec.sorted); if (b->spec.sorted) probe("source_in_order"); note("-> matrix %zu, %s from source %zu", mats.size(), s->dbl ? "double" : "float", k);
            if (b->spec.mode == BY_OFFSETS) { b->spec.roff = b->roff.data(); b->spec.coff = b->coff.data(); }
            cfg.race = choose(3) == 2 ? RACE_ALL : RACE_OFF; guest([&] { b->m = build_any(b->spec); }); cfg.race = RACE_OFF; mats.push_back(b); converted++; if (s->used) { shared++; probe("source_reused"); } s->used = true;
            if (consumes(f)) drop_source(k, choose(2)); else if (copies && sequence(*s) != was) violate("source-changed", "building %s reordered a source it only has to copy", fmt_name[f]); else if (entries(*s) != expected(s->m)) violate("source-changed", "building %s changed the entries of its source", fmt_name[f]);
        } else if (op == 5 && !mats.empty()) { drop_matrix(choose((uint32_t)mats.size())); fault("matrix_released"); }
        else if (op == 6 && choose(2)) { drop_source(choose((uint32_t)srcs.size()), choose(2)); fault("source_released"); }
        else if (op == 7) { random_schedule_config(); set_workers(any_workers()); }
        else {                                                                // multiply with all of them
            cfg.race = RACE_RANGES; for (Built *b : mats) check_spmv(*b, "wrong-result", seed32(), 0); cfg.race = RACE_OFF;
            for (Src *s : srcs) { Built t; t.src = s->m; t.dbl = s->dbl; t.spec.fmt = COO2; struct V : Mat { Src *s; void spmv(const void *x, void *y) const override { source_spmv(s->p, s->kind, s->dbl, x, y); } uint64_t nonzeros() const override { return 0; } } v; v.s = s; t.m = &v; check_spmv(t, "wrong-source-result", seed32(), 0); }
        }
        if (choose(3) == 2) cfg.preempt = !cfg.preempt;
    }
    cfg.race = RACE_OFF; cfg.preempt = false;
    while (!mats.empty()) { for (Built *b : mats) check_spmv(*b, "wrong-result", seed32(), 0); drop_matrix(choose((uint32_t)mats.size())); }
    for (Src *s : srcs) if (entries(*s) != expected(s->m)) violate("source-changed", "a source changed after it was converted");
    while (!srcs.empty()) drop_source(srcs.size() - 1, false);
    if (converted > 1) nontrivial();
}
static Register r27({"C27", c27, "a run is a history of 4 to 17 conversions, multiplications, releases and overwrites over up to three sources and six matrices; non-trivial with two conversions or more; distinct by hash of all events",
    "all formats, constructors, release functions, multiplication kernels", "OpenMP runtime, memory allocator (freed memory is poisoned)"});
