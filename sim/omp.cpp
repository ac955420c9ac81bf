// Simulated OpenMP runtime (the LLVM kmpc ABI): teams, worksharing, tasks, locks.
#include "internal.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <algorithm>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); }
namespace sim {
typedef void (*micro_t)(int32_t *, int32_t *, ...);
struct ktask { void *shareds; int32_t (*routine)(int32_t, void *); int32_t part_id; void *d1, *d2; };
static std::vector<Task *> tasks; static std::vector<Team *> teams; static uint32_t next_task;
static std::map<void *, size_t> raw;            // task descriptors alive
static std::vector<void *> raw_all;
struct Lock { bool held = false; Task *owner = nullptr; int depth = 0; };
static std::map<void *, Lock> locks;
static int nested_levels = 1;

static std::vector<std::pair<uint32_t, uint32_t>> retired_ids;   // (clock slot, last value) of finished tasks
void omp_reset() {
    for (Task *t : tasks) delete t; tasks.clear(); for (Team *t : teams) delete t; teams.clear(); next_task = 0; retired_ids.clear();
    for (auto &r : raw) __real_free(r.first); raw.clear(); locks.clear(); nested_levels = 1;
}
void epoch_ids() {           // only the current task and those waiting for it keep their slots
    retired_ids.clear(); next_task = 0;
    for (Task *t = cur->task; t; t = t->parent) next_task = std::max(next_task, t->id + 1);
    Task *t = cur->task; t->child_vc.clear(); t->dep_vc.clear(); t->vc.assign(t->id + 1, 0); t->vc[t->id] = 1;
}
Task *new_task(Task *parent, Team *team, bool implicit) {
    Task *t = new Task; tasks.push_back(t);
    t->parent = parent; t->team = team; t->implicit = implicit;
    if (cfg.race == RACE_OFF || race_over()) { t->vc.assign(1, 1); return t; }   // clocks are used by nobody
    if (parent) t->vc = parent->vc;
    // a slot may be reused by a task that starts after its previous owner is known to have ended
    uint32_t first = 1; t->id = UINT32_MAX;
    if (parent) for (size_t i = retired_ids.size(), tries = 0; i-- > 0 && tries < 12; tries++) {
        auto r = retired_ids[i];
        if (r.first < t->vc.size() && t->vc[r.first] >= r.second) { t->id = r.first; first = r.second + 1; retired_ids.erase(retired_ids.begin() + i); break; }
    }
    if (t->id == UINT32_MAX) { t->id = next_task++; if (t->id >= 16000) { race_kill(); t->id = 15999; next_task = 16000; } }
    if (t->vc.size() <= t->id) { VC v; v.reserve(t->id + 1); v.assign(t->vc.begin(), t->vc.end()); v.resize(t->id + 1, 0); t->vc.swap(v); }
    t->vc[t->id] = first;
    return t;
}
static void retire_task(Task *t) {
    if (t->id < 15999) retired_ids.push_back({t->id, t->vc[t->id]});
    VC().swap(t->vc); VC().swap(t->child_vc); VC().swap(t->dep_vc); t->id = 0; t->vc.resize(1, 0);   // thousands of tasks with thousands of slots each would fill memory
}
static inline void tick(Task *t) { t->vc[t->id]++; }

struct Ctx { Team *team; int tid; Task *task; uint64_t ws, si; WS *cur; uint64_t sn, key, oi; int push, icv, os; };
static Ctx save() { return {cur->team, cur->tid, cur->task, cur->ws_idx, cur->single_idx, cur->cur_ws, cur->static_next, cur->cur_ws_key, cur->ord_iter, cur->push_threads, cur->icv_threads, cur->os_tid}; }
static void load(const Ctx &c) { cur->team = c.team; cur->tid = c.tid; cur->task = c.task; cur->ws_idx = c.ws; cur->single_idx = c.si; cur->cur_ws = c.cur; cur->static_next = c.sn; cur->cur_ws_key = c.key; cur->ord_iter = c.oi; cur->push_threads = c.push; cur->icv_threads = c.icv; cur->os_tid = c.os; }
static void enter(Team *t, int tid, Task *task) { cur->team = t; cur->tid = tid; cur->task = task; cur->ws_idx = cur->single_idx = 0; cur->cur_ws = nullptr; cur->push_threads = 0; }

static bool descends(Task *t, Task *anc) { for (; t; t = t->parent) if (t == anc) return true; return false; }
static bool in_group(Task *t, TaskGroup *g) { for (; t; t = t->parent) if (t->group == g) return true; return false; }
static void complete(Task *t, VC *seen = nullptr, VC *thread = nullptr) {   // clocks of what is ordered after t: a dependent task, the thread's next task
    t->done = true; tick(t);
    Task *p = t->parent; p->children--; vc_join(p->child_vc, t->vc);
    if (t->team) { t->team->incomplete--; vc_join(t->team->rel, t->vc); }
    if (t->group) { t->group->pending--; vc_join(t->group->vc, t->vc); }
    auto it = raw.find(t->user); if (it != raw.end()) { __real_free(it->first); raw.erase(it); }
    if (seen) vc_join(*seen, t->vc);
    if (thread) vc_join(*thread, t->vc);
    retire_task(t);
}
static void __attribute__((noinline)) run_task(Task *t, VC *seen = nullptr) {   // host mode, on the current fiber
    char here; Task *old = cur->task; uintptr_t sp = (uintptr_t)&here;
    stack_dead_below(cur, std::min<uintptr_t>(cur->low > sp ? cur->low : sp, sp));
    cur->task = t; mix(0x7000 + t->id);
    int32_t (*r)(int32_t, void *) = ((ktask *)t->user)->routine;
    const bool clocks = cfg.race != RACE_OFF;    // what one thread executes is ordered by the program order of that thread
    if (clocks && old) { vc_join(t->vc, old->vc); tick(old); }
    for (;;) {
        t->again = false;
        g_host = 0; r(cur->id, t->user); g_host = 1;
        if (!t->again) { complete(t, seen, clocks && old ? &old->vc : nullptr); break; }
        // an untied task reached a scheduling point: continue here or on another worker
        if (!seen && t->team && choose(2)) { if (clocks && old) { vc_join(old->vc, t->vc); tick(t); } t->team->pool.push_back(t); break; }
    }
    stack_dead_below(cur, sp);
    cur->task = old;
}
static Task *take_task(Team *team, bool (*ok)(Task *, void *), void *arg) {
    static std::vector<size_t> c; c.clear();
    for (size_t i = 0; i < team->pool.size(); i++) if (!ok || ok(team->pool[i], arg)) c.push_back(i);
    if (c.empty()) return nullptr;
    size_t k = c[choose((uint32_t)c.size())];
    Task *t = team->pool[k]; team->pool.erase(team->pool.begin() + k); return t;
}
static bool any_task(Team *team, bool (*ok)(Task *, void *), void *arg) { for (Task *t : team->pool) if (!ok || ok(t, arg)) return true; return false; }
static bool is_desc(Task *t, void *a) { return descends(t, (Task *)a); }
static bool is_ingroup(Task *t, void *a) { return in_group(t, (TaskGroup *)a); }

static void barrier() {                          // host mode
    Team *t = cur->team; if (!t) return;
    uint64_t g = t->gen; vc_join(t->acc, cur->task->vc); tick(cur->task); t->arrived++;
    while (true) {
        if (t->gen != g) break;
        if (t->arrived == t->n && t->incomplete == 0) {
            vc_join(t->rel, t->acc); t->acc.clear(); t->arrived = 0; t->gen++; break;
        }
        if (Task *k = take_task(t, nullptr, nullptr)) { run_task(k); continue; }
        block_until([t, g] { return t->gen != g || !t->pool.empty() || (t->arrived == t->n && t->incomplete == 0); });
    }
    vc_join(cur->task->vc, t->rel);
    if (t->n > 1) sched_point();
}
static void taskwait() {
    Task *me = cur->task; Team *t = me->team ? me->team : cur->team;
    while (me->children > 0) {
        Task *k = t ? take_task(t, is_desc, me) : nullptr;
        if (k) { run_task(k); continue; }
        block_until([me, t] { return me->children == 0 || (t && any_task(t, is_desc, me)); });
    }
    vc_join(me->vc, me->child_vc);
}
static void call_micro(micro_t f, void **a) {
    int32_t gtid = cur->id, btid = cur->tid;
    g_host = 0;
    ((void (*)(int32_t *, int32_t *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *))f)
        (&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]);
    g_host = 1;
}
static int max_threads() { return cur->icv_threads > 0 ? cur->icv_threads : cfg.workers; }
static void fork_region(int argc, micro_t f, void **args, bool serial) {
    Team *pt = cur->team; int lvl = pt ? pt->level : 0, act = pt ? pt->active_level : 0;
    int n = cur->push_threads > 0 ? cur->push_threads : max_threads(); cur->push_threads = 0;
    int lim = cfg.nested ? 8 : nested_levels;
    if (serial || act >= lim) n = 1;
    if (live_fibers() + n > 160 || total_fibers() > 400000) n = 1;                 // the simulator's limits: workers at once, and in a run
    if (cfg.shrink && n > 1 && chance(1, 3)) { n = 1 + choose(n); fault("short_team"); }
    Team *t = new Team; teams.push_back(t); t->parent = pt; t->level = lvl + 1; t->active_level = act + (n > 1); t->n = n; t->parent_tid = cur->tid;
    Ctx c = save();
    Task *pk = cur->task;
    if (n > 1) race_on();
    t->workers_left = n - 1;
    std::vector<Task *> imp(n);
    for (int i = 0; i < n; i++) { imp[i] = new_task(pk, t, true); imp[i]->cur_group = nullptr; }
    tick(pk);
    std::vector<void *> a(args, args + 24);
    for (int i = 1; i < n; i++) {
        Task *it = imp[i]; Fiber *w = new_fiber([t, i, it, f, a, pk] {
            g_host = 1; std::vector<void *> b = a; call_micro(f, b.data());
            barrier(); tick(it); vc_join(pk->child_vc, it->vc); t->workers_left--;
        });
        w->team = t; w->tid = i; w->task = it; w->icv_threads = cfg.inner > 0 ? cfg.inner : c.icv; w->os_tid = os_thread(c.os, i);
    }
    enter(t, 0, imp[0]); if (cfg.inner > 0) cur->icv_threads = cfg.inner;
    refill_budget();
    if (n > 1) sched_point();
    call_micro(f, a.data());
    barrier();
    block_until([t] { return t->workers_left == 0; });
    tick(imp[0]); vc_join(pk->vc, imp[0]->vc); vc_join(pk->vc, pk->child_vc); vc_join(pk->vc, t->rel);
    load(c);
    for (Task *k : imp) retire_task(k);
    VC().swap(t->acc); VC().swap(t->rel); VC().swap(t->single_vc); t->ws.clear(); t->singles.clear();
    if (n > 1) race_off();
    (void)argc;
}
static void lock_acquire(void *k, bool nest) {
    Lock *l = &locks[k];
    if (l->held && nest && l->owner == cur->task) { l->depth++; return; }
    if (g_parallel) sched_point();
    block_until([k] { return !locks[k].held; });
    l = &locks[k]; l->held = true; l->owner = cur->task; l->depth = 1; sync_acquire((uint64_t)k ^ 0x5555000000000000ull);
}
static bool lock_try(void *k) { Lock &l = locks[k]; if (l.held) return false; l.held = true; l.owner = cur->task; l.depth = 1; sync_acquire((uint64_t)k ^ 0x5555000000000000ull); return true; }
static void lock_release(void *k) {
    Lock &l = locks[k]; if (!l.held) violate("lock-misuse", "release of a lock that is not held");
    if (--l.depth > 0) return; l.held = false; sync_release((uint64_t)k ^ 0x5555000000000000ull); if (g_parallel) sched_point();
}

// ---------------------------------------------------------------- worksharing
static void dispatch_init(int sched, int64_t lb, int64_t ub, int64_t st, int64_t chunk, bool isu) {
    Team *t = cur->team; uint64_t key = cur->ws_idx++; cur->cur_ws_key = key; cur->static_next = cur->tid;
    if (!t) { t = new Team; teams.push_back(t); cur->team = t; t->n = 1; }
    auto it = t->ws.find(key);
    if (it == t->ws.end()) {
        WS w; int s = sched & ~((1 << 29) | (1 << 30));
        if (s >= 160) s -= 128; // nomerge
        w.ordered = s >= 64 && s < 96; if (w.ordered) s -= 32;
        if (s == 37 || s == 38) s = 33 + choose(4);                        // runtime/auto
        if (s == 42) s = 36; if (s == 43 || s == 44) s = 35; if (s == 39) s = 35;
        w.kind = s; w.lb = lb; w.ub = ub; w.st = st; w.chunk = chunk < 1 ? 1 : chunk;
        if (isu) w.trip = st > 0 ? ((uint64_t)ub >= (uint64_t)lb ? ((uint64_t)ub - (uint64_t)lb) / st + 1 : 0) : ((uint64_t)lb >= (uint64_t)ub ? ((uint64_t)lb - (uint64_t)ub) / (uint64_t)(-st) + 1 : 0);
        else w.trip = st > 0 ? (ub >= lb ? (uint64_t)(ub - lb) / st + 1 : 0) : (lb >= ub ? (uint64_t)(lb - ub) / (uint64_t)(-st) + 1 : 0);
        if (s == 34 || s == 40 || s == 41) { w.kind = 33; w.chunk = std::max<int64_t>(1, (int64_t)((w.trip + t->n - 1) / t->n)); }
        t->ws[key] = w;
    }
    if (t->n > 1) sched_point();
}
static bool dispatch_next(int64_t *lb, int64_t *ub, int64_t *st, int32_t *last) {
    Team *t = cur->team; if (t->n > 1) sched_point();
    WS &w = t->ws[cur->cur_ws_key]; uint64_t b, n;
    if (w.kind == 33) { b = cur->static_next * w.chunk; cur->static_next += t->n; n = b < w.trip ? std::min<uint64_t>(w.chunk, w.trip - b) : 0; }
    else if (w.kind == 36) { b = w.next; uint64_t left = w.trip - b; n = std::min<uint64_t>(left, std::max<uint64_t>(w.chunk, left / (2 * t->n))); w.next += n; }
    else { b = w.next; n = std::min<uint64_t>(w.chunk, w.trip - b); w.next += n; }
    if (n == 0) { if (++w.finished == t->n) t->ws.erase(cur->cur_ws_key); return false; }
    cur->ord_iter = b; cur->cur_ws = &w;
    *lb = w.lb + (int64_t)b * w.st; *ub = w.lb + (int64_t)(b + n - 1) * w.st; *st = w.st; if (last) *last = b + n == w.trip;
    mix(b * 3 + n);
    return true;
}
template <class T, class S> static void static_init(int sched, int32_t *last, T *lo, T *up, S *stride, S incr, S chunk) {
    int n = cur->team ? cur->team->n : 1, tid = cur->tid; Host h;
    if (n > 1) sched_point();
    int s = sched & ~((1 << 29) | (1 << 30)); if (s >= 64 && s < 96) s -= 32;
    uint64_t trip;
    T l = *lo, u = *up;
    if (incr > 0) trip = u >= l ? (uint64_t)(u - l) / (uint64_t)incr + 1 : 0; else trip = l >= u ? (uint64_t)(l - u) / (uint64_t)(-incr) + 1 : 0;
    if (trip == 0) { *stride = incr; if (last) *last = 0; return; }
    if (s == 33 || s == 45) {                    // chunked: round robin
        if (chunk < 1) chunk = 1;
        *stride = (S)(incr * chunk * n); *lo = (T)(l + (T)tid * (T)chunk * (T)incr); *up = (T)(*lo + (T)(chunk - 1) * (T)incr);
        if (last) *last = (int32_t)(((trip - 1) / chunk) % n == (uint64_t)tid);
    } else {
        uint64_t small = trip / n, extra = trip % n, b = tid * small + std::min<uint64_t>(tid, extra), c = small + ((uint64_t)tid < extra);
        *stride = (S)(trip * incr);
        *lo = (T)(l + (T)b * (T)incr);
        *up = c ? (T)(*lo + (T)(c - 1) * (T)incr) : (T)(*lo - (T)incr);
        if (!c) { *lo = (T)(u + (T)incr); *up = u; if (incr > 0 ? *lo < u : *lo > u) { *lo = l + (T)incr; *up = l; } }
        if (last) *last = c && b + c == trip;
    }
}
} // namespace sim
using namespace sim;

extern "C" {
int32_t __kmpc_global_thread_num(void *) { return cur ? cur->id : 0; }
int32_t __kmpc_global_num_threads(void *) { return cfg.workers; }
int32_t __kmpc_bound_thread_num(void *) { return cur->tid; }
int32_t __kmpc_bound_num_threads(void *) { return cur->team ? cur->team->n : 1; }
int32_t __kmpc_ok_to_fork(void *) { return 1; }
int32_t __kmpc_in_parallel(void *) { return cur->team && cur->team->active_level > 0; }
void __kmpc_begin(void *, int32_t) {} void __kmpc_end(void *) {}
void __kmpc_push_num_threads(void *, int32_t, int32_t n) { cur->push_threads = n > 0 ? std::min(n, 256) : 0; }
void __kmpc_push_proc_bind(void *, int32_t, int) {}
void __kmpc_fork_call(void *, int32_t argc, micro_t f, ...) {
    Host h; void *a[24] = {0}; va_list ap; va_start(ap, f);
    if (argc > 24) violate("harness-limit", "too many captured variables");
    for (int i = 0; i < argc; i++) a[i] = va_arg(ap, void *); va_end(ap);
    fork_region(argc, f, a, false);
}
void __kmpc_fork_call_if(void *, int32_t argc, micro_t f, int32_t cond, void *args) { Host h; void *a[24] = {args}; fork_region(argc, f, a, !cond); }
static std::map<Fiber *, std::vector<Ctx>> *serial_stack;
void __kmpc_serialized_parallel(void *, int32_t) {
    Host h; if (!serial_stack) serial_stack = new std::map<Fiber *, std::vector<Ctx>>;
    (*serial_stack)[cur].push_back(save()); Team *pt = cur->team; Team *t = new Team; teams.push_back(t); t->parent = pt; t->level = (pt ? pt->level : 0) + 1; t->active_level = pt ? pt->active_level : 0; t->n = 1;
    Task *k = new_task(cur->task, t, true); tick(cur->task); enter(t, 0, k);
}
void __kmpc_end_serialized_parallel(void *, int32_t) {
    Host h; barrier(); Task *k = cur->task; tick(k); Ctx c = (*serial_stack)[cur].back(); (*serial_stack)[cur].pop_back(); VC v = k->vc; load(c); vc_join(cur->task->vc, v); retire_task(k);
}
void __kmpc_barrier(void *, int32_t) { Host h; barrier(); }
int32_t __kmpc_cancel_barrier(void *, int32_t) { Host h; barrier(); return 0; }
int32_t __kmpc_cancel(void *, int32_t, int32_t) { return 0; }
int32_t __kmpc_cancellationpoint(void *, int32_t, int32_t) { return 0; }
void __kmpc_flush(void *) { full_fence(); }
int32_t __kmpc_master(void *, int32_t) { return cur->tid == 0; }
void __kmpc_end_master(void *, int32_t) {}
int32_t __kmpc_masked(void *, int32_t, int32_t f) { return cur->tid == f; }
void __kmpc_end_masked(void *, int32_t) {}
int32_t __kmpc_single(void *, int32_t) { Host h; Team *t = cur->team; if (!t) return 1; uint64_t k = cur->single_idx++; if (t->n > 1) sched_point(); return t->singles[k]++ == 0; }
void __kmpc_end_single(void *, int32_t) {}
void __kmpc_copyprivate(void *, int32_t, size_t, void *data, void (*fn)(void *, void *), int32_t did) {
    Host h; Team *t = cur->team; if (!t) return; if (did) t->copy_data = data; barrier(); if (!did) { void *s = t->copy_data; g_host = 0; fn(data, s); g_host = 1; } barrier();
}
void __kmpc_critical(void *, int32_t, void *l) { Host h; lock_acquire(l, false); }
void __kmpc_critical_with_hint(void *, int32_t, void *l, uint32_t) { Host h; lock_acquire(l, false); }
void __kmpc_end_critical(void *, int32_t, void *l) { Host h; lock_release(l); }
int32_t __kmpc_reduce(void *, int32_t, int32_t, size_t, void *, void *, void *l) { Host h; lock_acquire(l, false); return 1; }
void __kmpc_end_reduce(void *, int32_t, void *l) { Host h; lock_release(l); barrier(); }
int32_t __kmpc_reduce_nowait(void *, int32_t, int32_t, size_t, void *, void *, void *l) { Host h; lock_acquire(l, false); return 1; }
void __kmpc_end_reduce_nowait(void *, int32_t, void *l) { Host h; lock_release(l); }

#define DISP(sfx, T, U) \
void __kmpc_dispatch_init_##sfx(void *, int32_t, int32_t s, T lb, T ub, std::make_signed<T>::type st, std::make_signed<T>::type ch) { Host h; dispatch_init(s, (int64_t)lb, (int64_t)ub, st, ch, U); } \
int32_t __kmpc_dispatch_next_##sfx(void *, int32_t, int32_t *last, T *lb, T *ub, std::make_signed<T>::type *st) { Host h; int64_t a, b, c; if (!dispatch_next(&a, &b, &c, last)) return 0; *lb = (T)a; *ub = (T)b; *st = (std::make_signed<T>::type)c; return 1; } \
void __kmpc_dispatch_fini_##sfx(void *, int32_t) { Host h; if (cur->cur_ws) { WS *w = cur->cur_ws; if (w->ordered) { uint64_t me = cur->ord_iter; block_until([w, me] { return w->ordered_iter >= me; }); if (w->ordered_iter == me) w->ordered_iter++; cur->ord_iter++; } } } \
void __kmpc_for_static_init_##sfx(void *, int32_t, int32_t s, int32_t *last, T *lo, T *up, std::make_signed<T>::type *st, std::make_signed<T>::type inc, std::make_signed<T>::type ch) { static_init<T, std::make_signed<T>::type>(s, last, lo, up, st, inc, ch); }
DISP(4, int32_t, false) DISP(4u, uint32_t, true) DISP(8, int64_t, false) DISP(8u, uint64_t, true)
void __kmpc_for_static_fini(void *, int32_t) {}
void __kmpc_dispatch_deinit(void *, int32_t) {}
void __kmpc_ordered(void *, int32_t) { Host h; WS *w = cur->cur_ws; if (!w) return; uint64_t me = cur->ord_iter; block_until([w, me] { return w->ordered_iter >= me; }); vc_join(cur->task->vc, w->ord_vc); }
void __kmpc_end_ordered(void *, int32_t) { Host h; WS *w = cur->cur_ws; if (!w) return; vc_join(w->ord_vc, cur->task->vc); tick(cur->task); }

void *__kmpc_omp_task_alloc(void *, int32_t, int32_t flags, size_t sz, size_t shsz, int32_t (*entry)(int32_t, void *)) {
    Host h; size_t a = (sz + 15) & ~(size_t)15; char *p = (char *)__real_calloc(1, a + shsz + 16); raw[p] = a + shsz + 16;
    ktask *k = (ktask *)p; k->shareds = shsz ? p + a : nullptr; k->routine = entry; k->part_id = 0; (void)flags; return p;
}
void *__kmpc_omp_target_task_alloc(void *l, int32_t g, int32_t f, size_t a, size_t b, int32_t (*e)(int32_t, void *), int64_t) { return __kmpc_omp_task_alloc(l, g, f, a, b, e); }
static Task *make_task(void *k) {
    Task *p = cur->task; Task *t = new_task(p, p->team ? p->team : cur->team, false); tick(p);
    t->user = k; p->children++; if (t->team) t->team->incomplete++;
    t->group = p->cur_group ? p->cur_group : nullptr; t->cur_group = t->group; if (t->group) t->group->pending++;
    return t;
}
static void submit(void *k, bool force_inline) {
    if (cur->task && cur->task->user == k && k) { cur->task->again = true; return; }
    Task *t = make_task(k); bool defer = false;
    if (!force_inline && t->team) {
        uint32_t d = cfg.task_bias == 0 ? choose(2) : cfg.task_bias == 1 ? (uint32_t)chance(1, 8) : (uint32_t)!chance(1, 8);
        defer = d != 0;
    }
    if (defer) { t->team->pool.push_back(t); if (t->team->n > 1) sched_point(); }
    else run_task(t);
}
int32_t __kmpc_omp_task(void *, int32_t, void *k) { Host h; submit(k, false); return 0; }
int32_t __kmpc_omp_task_parts(void *, int32_t, void *k) { Host h; submit(k, false); return 0; }
int32_t __kmpc_omp_taskwait(void *, int32_t) { Host h; taskwait(); return 0; }
int32_t __kmpc_omp_taskyield(void *, int32_t, int) { Host h; yield_point(); return 0; }
static std::map<Fiber *, std::vector<std::pair<Task *, Task *>>> *if0;
void __kmpc_omp_task_begin_if0(void *, int32_t, void *k) { Host h; if (!if0) if0 = new std::map<Fiber *, std::vector<std::pair<Task *, Task *>>>; Task *t = make_task(k); (*if0)[cur].push_back({t, cur->task}); cur->task = t; }
void __kmpc_omp_task_complete_if0(void *, int32_t, void *) { Host h; auto p = (*if0)[cur].back(); (*if0)[cur].pop_back(); complete(p.first, &p.second->vc); cur->task = p.second; }
int32_t __kmpc_omp_task_with_deps(void *, int32_t, void *k, int32_t, void *, int32_t, void *) {
    Host h; Task *p = cur->task; Task *t = make_task(k); vc_join(t->vc, p->dep_vc); run_task(t, &p->dep_vc); return 0;
}
void __kmpc_omp_wait_deps(void *, int32_t, int32_t, void *, int32_t, void *) { Host h; vc_join(cur->task->vc, cur->task->dep_vc); }
void __kmpc_omp_taskwait_deps_51(void *, int32_t, int32_t, void *, int32_t, void *, int32_t) { Host h; vc_join(cur->task->vc, cur->task->dep_vc); }
void __kmpc_taskgroup(void *, int32_t) { Host h; TaskGroup *g = new TaskGroup; g->outer = cur->task->cur_group; cur->task->cur_group = g; }
void __kmpc_end_taskgroup(void *, int32_t) {
    Host h; Task *me = cur->task; TaskGroup *g = me->cur_group; Team *t = me->team ? me->team : cur->team;
    while (g->pending > 0) {
        Task *k = t ? take_task(t, is_ingroup, g) : nullptr;
        if (k) { run_task(k); continue; }
        block_until([g, t] { return g->pending == 0 || (t && any_task(t, is_ingroup, g)); });
    }
    vc_join(me->vc, g->vc); me->cur_group = g->outer; delete g;
}
void __kmpc_taskloop(void *loc, int32_t gtid, void *k, int32_t, uint64_t *lb, uint64_t *ub, int64_t st, int32_t nogroup, int32_t sched, uint64_t grain, void (*dup)(void *, void *, int32_t)) {
    Host h; if (!nogroup) __kmpc_taskgroup(loc, gtid);
    int64_t L = (int64_t)*lb, U = (int64_t)*ub; uint64_t trip = st > 0 ? (U >= L ? (U - L) / st + 1 : 0) : (L >= U ? (L - U) / (-st) + 1 : 0);
    uint64_t per = sched == 1 ? std::max<uint64_t>(1, grain) : sched == 2 ? std::max<uint64_t>(1, (trip + std::max<uint64_t>(1, grain) - 1) / std::max<uint64_t>(1, grain)) : 1 + choose((uint32_t)std::min<uint64_t>(trip ? trip : 1, 64));
    size_t sz = raw[k], lo = (char *)lb - (char *)k, uo = (char *)ub - (char *)k, sho = ((ktask *)k)->shareds ? (char *)((ktask *)k)->shareds - (char *)k : 0;
    for (uint64_t b = 0; b < trip; b += per) {
        uint64_t n = std::min(per, trip - b); char *p = (char *)__real_calloc(1, sz); raw[p] = sz; memcpy(p, k, sz);
        if (sho) ((ktask *)p)->shareds = p + sho;
        int last = b + n == trip;
        if (dup) { g_host = 0; dup(p, k, last); g_host = 1; }
        *(uint64_t *)(p + lo) = (uint64_t)(L + (int64_t)b * st); *(uint64_t *)(p + uo) = (uint64_t)(L + (int64_t)(b + n - 1) * st);
        submit(p, false);
    }
    if (!nogroup) __kmpc_end_taskgroup(loc, gtid);
}
void __kmpc_taskloop_5(void *loc, int32_t gtid, void *k, int32_t i, uint64_t *lb, uint64_t *ub, int64_t st, int32_t ng, int32_t s, uint64_t g, int32_t, void (*dup)(void *, void *, int32_t)) { __kmpc_taskloop(loc, gtid, k, i, lb, ub, st, ng, s, g, dup); }

// ---------------------------------------------------------------- omp_* API
int omp_get_max_threads() { return cur ? max_threads() : 1; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_thread_num() { return cur ? cur->tid : 0; }
int omp_get_num_procs() { return cfg.workers; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_in_parallel() { return cur->team && cur->team->active_level > 0; }
int omp_in_final() { return 0; }
int omp_get_level() { return cur->team ? cur->team->level : 0; }
int omp_get_active_level() { return cur->team ? cur->team->active_level : 0; }
int omp_get_ancestor_thread_num(int l) { Team *t = cur->team; int tid = cur->tid; while (t && t->level > l) { tid = t->parent_tid; t = t->parent; } return tid; }
int omp_get_team_size(int l) { Team *t = cur->team; while (t && t->level > l) t = t->parent; return t ? t->n : 1; }
void omp_set_num_threads(int n) { cur->icv_threads = n > 0 ? std::min(n, 256) : 0; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return cfg.shrink; }
void omp_set_nested(int n) { nested_levels = n ? 8 : 1; } int omp_get_nested() { return cfg.nested || nested_levels > 1; }
void omp_set_max_active_levels(int n) { nested_levels = n; } int omp_get_max_active_levels() { return cfg.nested ? 8 : nested_levels; }
void omp_set_schedule(int, int) {} void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }
int omp_get_cancellation() { return 0; } int omp_get_proc_bind() { return 0; } int omp_get_default_device() { return 0; } int omp_get_num_devices() { return 0; }
void omp_init_lock(void **l) { Host h; locks[l] = Lock(); *l = l; }
void omp_destroy_lock(void **l) { Host h; locks.erase(l); }
void omp_set_lock(void **l) { Host h; lock_acquire(l, false); }
void omp_unset_lock(void **l) { Host h; lock_release(l); }
int omp_test_lock(void **l) { Host h; return lock_try(l); }
void omp_init_nest_lock(void **l) { Host h; locks[l] = Lock(); *l = l; }
void omp_destroy_nest_lock(void **l) { Host h; locks.erase(l); }
void omp_set_nest_lock(void **l) { Host h; lock_acquire(l, true); }
void omp_unset_nest_lock(void **l) { Host h; lock_release(l); }
int __wrap_pthread_mutex_lock(void *m) { if (g_host || !cur) return 0; Host h; lock_acquire(m, false); return 0; }
int __wrap_pthread_mutex_unlock(void *m) { if (g_host || !cur) return 0; Host h; lock_release(m); return 0; }
int __wrap_pthread_mutex_trylock(void *m) { if (g_host || !cur) return 0; Host h; return lock_try(m) ? 0 : 16; }
void __kmpc_doacross_init(void *, int32_t, int32_t, void *) { violate("harness-limit", "doacross loops are not simulated"); }
void __kmpc_doacross_wait(void *, int32_t, int64_t *) {} void __kmpc_doacross_post(void *, int32_t, int64_t *) {} void __kmpc_doacross_fini(void *, int32_t) {}
void __kmpc_push_num_teams(void *, int32_t, int32_t, int32_t) {}
void *__kmpc_alloc(int, size_t n, void *) { return __real_malloc(n); }
void __kmpc_free(int, void *p, void *) { __real_free(p); }
#define ATOM(name, T, op) void __kmpc_atomic_##name(void *, int, T *l, T r) { if (g_parallel) { Host h; sched_point(); } *l = *l op r; }
ATOM(fixed4_add, int32_t, +) ATOM(fixed8_add, int64_t, +) ATOM(float4_add, float, +) ATOM(float8_add, double, +) ATOM(float8_sub, double, -) ATOM(float4_sub, float, -)
}
