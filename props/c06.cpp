// C06: parallel sorts are sorted, stable and conserve their elements.
#include "util.h"
#include "sortcase.h"
using namespace sim; using namespace api;
static void c06() {
    random_schedule_config(); set_workers(any_workers()); cfg.race = RACE_ALL; if (choose(3) == 2) cfg.race = RACE_OFF;
    uint32_t mode = choose(8);
    static const uint32_t means[] = {400, 60, 3000}; cfg.skip_mean = means[choose(3)];
    if (choose(6) == 5) cfg.nofail_left = (int)choose(4);        // no scratch memory at some point
    if (mode < 5) {
        // sometimes one sort after another: the result must not depend on what was sorted before
        int kind = (int)choose(S_KINDS), n = -1, rounds = choose(5) == 4 ? 2 + (int)choose(3) : 1; bool dbl = false;
        if (rounds > 1) probe("repeated_sorts");
        for (int r = 0; r < rounds; r++) {
            SortCase q; make_sort(q, r ? 4500 : 9000, kind, n); if (r) q.j.dbl = dbl;
            guest([&] { run_sort(q.j); }); verify_sort(q, r ? " after another sort" : "");
            if (rounds > 1) { n = choose(4) == 3 ? -1 : (int)q.j.n; dbl = q.j.dbl; if (choose(4) == 3) kind = (int)choose(S_KINDS); }
        }
        return;
    }
    uint32_t nj = 1 + choose(4); std::vector<SortCase> q(nj); SortJob *js = new SortJob[nj];
    for (uint32_t i = 0; i < nj; i++) { make_sort(q[i], 2300, (int)choose(S_KINDS)); js[i] = q[i].j; }
    int how = (int)mode - 5, threads = 1 + (int)choose(6);
    probe(how == 0 ? "inside_worksharing" : how == 1 ? "inside_master" : "inside_tasks");
    guest([&] { run_sort_in_region(js, (int)nj, threads, how); });
    for (uint32_t i = 0; i < nj; i++) verify_sort(q[i], how == 0 ? " in a parallel loop" : how == 1 ? " in a master region" : " in a task");
    delete[] js;
}
static Register r6({"C06", c06, "a run sorts one to four arrays; counted when a choice among several runnable workers was made or an allocation fault fired; distinct by hash of all events",
    "every sort of utils.h, block ids, parallel stable sort and merge", "OpenMP runtime (tasks, nested teams), scratch memory allocation"});
