// C05: concurrent callers share one matrix while others build or sort.
#include "util.h"
#include "sortcase.h"
using namespace sim; using namespace api;
static void c05() {
    int fmt = pick_fmt(0, ALL_FMTS); set_workers(any_workers()); if (cfg.workers > 8) cfg.workers = 3;
    Built b = make_built(fmt, gen_for_format(fmt, rarely(200, 3000, 60), rarely(500, 6000, 60)), cfg.workers, true);
    if (fmt == CSBR_C2 || fmt == CSBR_C3 || fmt >= CGBR2_16) b.spec.force_balanced = (int)choose(2);
    cfg.preempt = false; guest([&] { b.m = build_any(b.spec); }); cfg.preempt = true;
    random_schedule_config(); set_workers(1 + (int)choose(4)); cfg.race = RACE_ALL;
    uint32_t callers = 2 + choose(4), others = choose(4);
    struct Call { std::vector<double> x, y0; Vec *gx, *gy; uint32_t reps; bool serial; };
    std::vector<Call> calls(callers); Rng g(seed32());
    for (auto &c : calls) {
        c.reps = 1 + g.below(2); c.serial = g.below(5) == 0;
        for (uint32_t i = 0; i < b.src.cols; i++) c.x.push_back((double)(int)g.below(1801) - 900);
        for (uint32_t i = 0; i < b.src.rows; i++) c.y0.push_back((double)(int)g.below(2001) - 1000);
        c.gx = new Vec(b.dbl, b.src.cols); c.gy = new Vec(b.dbl, b.src.rows);
        for (uint32_t i = 0; i < b.src.cols; i++) c.gx->set(i, c.x[i]); for (uint32_t i = 0; i < b.src.rows; i++) c.gy->set(i, c.y0[i]);
    }
    for (auto &c : calls) spawn([&c, &b] { Guest gg; bool s = false; for (uint32_t k = 0; k < c.reps; k++) { s = false; if (c.serial) s = b.m->spmv_serial(c.gx->p, c.gy->p); if (!s) b.m->spmv(c.gx->p, c.gy->p); } });
    // what the others do: half the time all of them do the same thing, or the very thing the shared matrix is about
    struct Other { int what; Built b; SortCase q; Vec *gx = nullptr, *gy = nullptr; std::vector<double> x; };
    std::vector<Other *> os; bool same = choose(2) == 1; int what0 = (int)choose(3), kind0 = (int)choose(S_KINDS), fmt0 = choose(2) ? fmt : pick_fmt(0, ALL_FMTS);
    for (uint32_t k = 0; k < others; k++) {
        Other *o = new Other; os.push_back(o); o->what = same ? what0 : (int)choose(3); int f = same ? fmt0 : pick_fmt(0, ALL_FMTS);
        if (o->what == 0) { make_sort(o->q, 1400, same ? kind0 : (int)choose(S_KINDS)); spawn([o] { Guest gg; run_sort(o->q.j); }); continue; }
        cfg.preempt = false; o->b = make_built(f, gen_for_format(f, 80, 200), cfg.workers, false);
        if (o->what == 1) { cfg.preempt = true; spawn([o] { Guest gg; o->b.m = build_any(o->b.spec); }); continue; }
        o->gx = new Vec(o->b.dbl, o->b.src.cols); o->gy = new Vec(o->b.dbl, o->b.src.rows);     // multiplies with a matrix of its own
        for (uint32_t i = 0; i < o->b.src.cols; i++) { o->x.push_back((double)(int)g.below(1801) - 900); o->gx->set(i, o->x[i]); }
        for (uint32_t i = 0; i < o->b.src.rows; i++) o->gy->set(i, 0);
        spawn([o] { Guest gg; o->b.m = build_any(o->b.spec); o->b.m->spmv(o->gx->p, o->gy->p); }); cfg.preempt = true;
    }
    join_all();
    cfg.race = RACE_OFF;
    for (size_t q = 0; q < calls.size(); q++) {
        Call &c = calls[q]; std::vector<double> e = mul(b.src, c.x);
        for (uint32_t i = 0; i < b.src.rows; i++) { double w = c.y0[i] + c.reps * e[i]; if (c.gy->get(i) != w) violate("wrong-result", "%s: caller %zu of %u got y[%u] = %.17g, alone it would be %.17g", fmt_name[fmt], q, callers, i, c.gy->get(i), w); }
        delete c.gx; delete c.gy;
    }
    cfg.preempt = false;
    for (Other *o : os) {
        if (o->what == 0) verify_sort(o->q, " beside multiplications");
        else {
            if (o->gy) { std::vector<double> w = mul(o->b.src, o->x); for (uint32_t i = 0; i < o->b.src.rows; i++) if (o->gy->get(i) != w[i]) violate("wrong-result", "%s: a multiplication with another matrix got y[%u] = %.17g, alone it would be %.17g", fmt_name[o->b.spec.fmt], i, o->gy->get(i), w[i]); delete o->gx; delete o->gy; }
            check_spmv(o->b, "wrong-construction", seed32(), 0);
        }
        delete o;
    }
    nontrivial();
}
static Register r5({"C05", c05, "a run is two to five application threads multiplying with one matrix while up to three others build, sort or multiply with matrices of their own; always non-trivial; distinct by hash of all events",
    "all formats, constructors, sorts", "OpenMP runtime (one pool per application thread), application threads, memory allocator"});
