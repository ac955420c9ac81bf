// Choices, fibers, scheduler, run driver.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <malloc.h>
#include <ctime>
#include <cmath>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <fcntl.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>


namespace sim {

int g_host = 1;
Config cfg;
Fiber *cur = nullptr;
int g_parallel = 0;

// ------------------------------------------------------------------ choices
static uint64_t rng_s;
static bool replaying;
static std::vector<uint32_t> rec;              // choices of this run
static const std::vector<uint32_t> *rep;       // choices to replay
static size_t rep_i;
static uint64_t ev_hash, sched_hash;
static std::vector<std::string> notes;
static std::map<std::string, uint64_t> faults, probes, all_faults, all_probes;
static bool is_nontrivial;
static uint64_t n_switch, n_sched_choice;

static uint64_t rnext() {
    rng_s += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng_s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void mix(uint64_t v) { ev_hash = (ev_hash ^ v) * 0x100000001B3ull; ev_hash ^= ev_hash >> 29; }
static uint32_t take(uint32_t fresh, uint32_t n) {      // n==0: any 32-bit value
    uint32_t v;
    if (replaying) { v = rep_i < rep->size() ? (*rep)[rep_i] : 0; rep_i++; if (n) v %= n; }
    else v = fresh;
    rec.push_back(v); mix(v + 77);
    return v;
}
uint32_t choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t f = replaying ? 0 : (uint32_t)((rnext() >> 16) % n);
    return take(f, n);
}
uint32_t seed32() { return take(replaying ? 0 : (uint32_t)(rnext() >> 32), 0); }
static uint32_t draw_skip() {                          // accesses until the next preemption, 0 = never
    uint32_t f = 0;
    if (!replaying) {
        double u = ((rnext() >> 11) + 1) * (1.0 / 9007199254740994.0);
        double v = -std::log(u) * cfg.skip_mean + 1;
        f = v > 1e6 ? 1000000 : (uint32_t)v;
    }
    return take(f, 0);
}
void note(const char *fmt, ...) {
    Host h; char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; p++) mix(*p);
    if (notes.size() < 400) notes.push_back(b);
}
void fault(const char *k) { Host h; faults[k]++; is_nontrivial = true; }
void probe(const char *k) { Host h; probes[k]++; }
void nontrivial() { is_nontrivial = true; }
uint64_t switches() { return n_switch; }
uint64_t accesses() { return g_acc; }

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
    ret
.globl sim_entry_tramp
.type sim_entry_tramp,@function
sim_entry_tramp:
    xorl %ebp, %ebp
    andq $-16, %rsp
    call sim_fiber_main
    ud2
)");
extern "C" void sim_entry_tramp();
static void *driver_sp;
static std::vector<Fiber *> fibers, active;      // all of the run; those not finished
static const uint32_t PRIO = 1u << 30; static uint32_t prio_floor;

static void **eh_globals;                        // one OS thread, so one address
void to_driver() {
    void *dummy; g_host = 1; Fiber *f = cur; cur = nullptr; (void)f;
    sim_switch(&dummy, driver_sp); __builtin_unreachable();
}
static void resume(Fiber *f) {
    Fiber *me = cur;
    if (f == me) return;
    me->host = g_host; cur = f; g_host = f->host; n_switch++;
    sched_hash = (sched_hash ^ (f->id * 1000003ull + me->steps)) * 0x100000001B3ull; 
    mix(f->id * 31 + 7);
    me->eh[0] = eh_globals[0]; me->eh[1] = eh_globals[1]; eh_globals[0] = f->eh[0]; eh_globals[1] = f->eh[1];
    sim_switch(&me->sp, f->sp);
}
static void pick_next(bool voluntary);
static void retire(Fiber *f) {
    f->state = Fiber::DONE; f->entry = nullptr; f->wake = nullptr;
    active.erase(std::find(active.begin(), active.end(), f));
    stack_free(f);
}
Fiber *stack_owner(uintptr_t a) { for (Fiber *f : active) if (a - (uintptr_t)f->stack < f->stack_size) return f; return nullptr; }
int os_thread(int parent, int tid) {           // same pool slot, same OS thread
    static std::map<std::pair<int, int>, int> *m; if (!m) m = new std::map<std::pair<int, int>, int>;
    if (parent < 0) { m->clear(); return 0; }
    if (tid == 0) return parent;
    auto it = m->find({parent, tid}); if (it != m->end()) return it->second;
    int id = (int)m->size() + 1; (*m)[{parent, tid}] = id; return id;
}
extern "C" void sim_fiber_main() {
    Fiber *f = cur;
    refill_budget();
    f->entry();
    g_host = 1;
    f->entry = nullptr;
    retire(f);
    pick_next(true);
    abort();
}
Fiber *new_fiber(std::function<void()> entry) {
    Fiber *f = new Fiber;
    f->id = (int)fibers.size(); f->entry = std::move(entry);
    f->stack_size = fibers.empty() ? (size_t)4 << 20 : 0;
    f->stack = stack_alloc(&f->stack_size); f->low = (uintptr_t)f->stack + f->stack_size;
    f->os_tid = fibers.empty() ? 0 : cur->os_tid;
    uint64_t *top = (uint64_t *)(f->stack + f->stack_size - 64);
    *--top = 0; *--top = (uint64_t)&sim_entry_tramp;
    for (int i = 0; i < 6; i++) *--top = 0;
    f->sp = top; f->host = 1;
    f->icv_threads = cur ? cur->icv_threads : 0;
    f->proc = cur ? cur->proc : nullptr;
    if (cfg.policy == 1) f->prio = PRIO + 100 + choose(1000);
    fibers.push_back(f); active.push_back(f);
    return f;
}
static bool runnable(Fiber *f) {
    if (f->state == Fiber::READY) return true;
    if (f->state == Fiber::BLOCKED && f->wake && f->wake()) return true;
    return false;
}
static uint64_t sched_events;
static void pick_next(bool) {
    static std::vector<Fiber *> r; r.clear();
    sched_events++;
    if (++g_steps > cfg.step_cap) violate("no-progress", "step budget of %llu exhausted", (unsigned long long)cfg.step_cap);
    if (cur->state != Fiber::DONE && runnable(cur)) r.push_back(cur);
    if (active.empty()) to_driver();
    for (size_t i = 0; i < active.size(); i++) { Fiber *f = active[i]; if (f != cur && runnable(f)) r.push_back(f); }
    if (r.empty()) violate("deadlock", "no thread can make progress");
    Fiber *n = r[0];
    if (r.size() > 1) {
        n_sched_choice++;
        std::vector<Fiber *> *c = &r; static std::vector<Fiber *> awake;
        if (cfg.policy == 3) {
            awake.clear(); for (Fiber *f : r) if (f->stalled_until <= sched_events) awake.push_back(f);
            if (!awake.empty()) c = &awake;
        }
        if (cfg.policy == 1) { n = (*c)[0]; for (Fiber *f : *c) if (f->prio > n->prio) n = f; }
        else n = (*c)[c->size() > 1 ? choose((uint32_t)c->size()) : 0];
        if (cfg.policy == 3 && chance(1, 24)) { cur->stalled_until = sched_events + 20 + choose(400); fault("stalled_worker"); }
        sched_hash = (sched_hash ^ (n->id + 13)) * 0x100000001B3ull;
    }
    if (n->state == Fiber::BLOCKED) { n->state = Fiber::READY; n->wake = nullptr; }
    resume(n);
    refill_budget();
}
static Fiber *spinner; static int spins;          // a thread that keeps passing scheduling points may be waiting for another one
void yield_point() { if (active.size() > 1) { if (cfg.policy == 1) cur->prio = --prio_floor; pick_next(true); } }
void sched_point() { if (active.size() <= 1) return; if (spinner != cur) { spinner = cur; spins = 0; } if (++spins > 200) { spins = 0; yield_point(); } else pick_next(true); }
void block_until(std::function<bool()> pred) {
    while (!pred()) { cur->state = Fiber::BLOCKED; cur->wake = pred; pick_next(true); }
    cur->state = Fiber::READY; cur->wake = nullptr;
}
uint64_t live_fibers() { return active.size(); }
uint64_t total_fibers() { return fibers.size(); }
int64_t g_budget; uint64_t g_acc, g_steps;
void refill_budget() {
    if (!cfg.preempt || g_parallel == 0 || cfg.policy == 2) { g_budget = INT64_MAX; return; }
    uint32_t s = draw_skip(); g_budget = s ? s : INT64_MAX;
}
void preempt() {                                 // called from the access hook, host mode
    if (active.size() <= 1) { refill_budget(); return; }
    if (cfg.policy == 1 && prio_floor > PRIO - 900) cur->prio = --prio_floor;
    pick_next(false);
}

// ------------------------------------------------------------------ application threads and processes
static int spawned_live;
void spawn(std::function<void()> fn) {
    Host h;
    spawned_live++;
    race_on(); cur->task->vc[cur->task->id]++;
    Fiber *f = new_fiber([fn] {
        g_host = 1; fn(); g_host = 1;
        Task *t = cur->task; t->done = true; spawned_live--;
        vc_join(t->parent->child_vc, t->vc);
    });
    Task *t = new_task(cur->task, nullptr, true); f->task = t; f->team = nullptr; f->os_tid = os_thread(cur->os_tid, 100000 + f->id);
    if (spawned_live == 1) refill_budget();
}
void join_all() {
    Host h;
    block_until([] { return spawned_live == 0; });
    vc_join(cur->task->vc, cur->task->child_vc); cur->task->vc[cur->task->id]++;
    while (g_parallel) race_off();
    g_budget = INT64_MAX;
}
// threads that the library itself creates (std::thread, pthread_create)
struct LibThread { bool done = false; VC vc; };
static std::map<uint64_t, LibThread> lib_threads; static uint64_t next_thread;
void threads_reset() { lib_threads.clear(); next_thread = 0; }
static uint64_t thread_start(std::function<void()> fn) {
    race_on(); cur->task->vc[cur->task->id]++;
    uint64_t id = ++next_thread; lib_threads[id];
    Fiber *f = new_fiber([fn, id] {
        g_host = 0; fn(); g_host = 1;
        Task *t = cur->task; t->done = true; LibThread &l = lib_threads[id]; l.done = true; l.vc = t->vc;
    });
    f->task = new_task(cur->task, nullptr, true); f->team = nullptr; f->os_tid = os_thread(cur->os_tid, 200000 + f->id);
    refill_budget(); sched_point(); return id;
}
static bool thread_join(uint64_t id) {
    if (!lib_threads.count(id)) return false;
    block_until([id] { return lib_threads[id].done; });
    vc_join(cur->task->vc, lib_threads[id].vc); cur->task->vc[cur->task->id]++; lib_threads.erase(id); race_off(); return true;
}
static std::vector<Process *> procs;
const char *outcome_name(Outcome o) { static const char *n[] = {"returned", "exited", "fail-stop", "crashed"}; return n[o]; }
void end_process(Outcome o, int code, const std::string &msg) {
    g_host = 1;
    Process *p = cur->proc;
    if (!p) violate("abnormal-end", "%s: %s", outcome_name(o), msg.c_str());
    if (o == EXITED) flush_all();
    p->res.outcome = o; p->res.code = code; p->res.msg = msg; p->over = true;
    { std::vector<Fiber *> all = active; for (Fiber *f : all) if (f->proc == p) retire(f); }
    mix(0xE0 + o); mix(code);
    pick_next(true); abort();
}
Result guarded(std::function<void()> fn) {
    Host h;
    Process *p = new Process; procs.push_back(p);
    p->waiter = cur; int par = g_parallel; int sl = spawned_live;
    Task *pt = cur->task; pt->vc[pt->id]++;
    Fiber *f = new_fiber([fn, p] { g_host = 1; fn(); g_host = 1; p->over = true; vc_join(cur->task->parent->child_vc, cur->task->vc); });
    f->proc = p; f->task = new_task(cur->task, nullptr, true);
    block_until([p] { return p->over; });
    { std::vector<Fiber *> all = active; for (Fiber *x : all) if (x->proc == p) retire(x); }
    vc_join(pt->vc, pt->child_vc);
    g_parallel = par; spawned_live = sl;
    if (!g_parallel) { g_race = false; g_budget = INT64_MAX; }
    return p->res;
}

// ------------------------------------------------------------------ violations
static bool violated; static std::string v_cls, v_msg;
static volatile bool too_slow;
void violate(const char *cls, const char *fmt, ...) {
    g_host = 1;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (out_of_arena) { probes["out_of_memory"]++; to_driver(); }     // the simulated heap was too small for this run
    if (too_slow && !strcmp(cls, "no-progress")) { probes["given_up"]++; to_driver(); }
    violated = true; v_cls = cls; v_msg = b;
    for (const char *p = cls; *p; p++) mix(*p);
    to_driver();
}
static const char *volatile phase_prop;
static int report_fd = 1;
static volatile sig_atomic_t in_sig;
static int ticks_quiet, ticks_busy;
static void on_signal(int s, siginfo_t *si, void *) {
    if (s == SIGPROF && !cur) return;
    if (in_sig || !cur) { const char m[] = "SIGNAL-IN-DRIVER\n"; if (write(report_fd, m, sizeof m - 1)) {} _exit(4); }
    if (s == SIGPROF) {                                       // every five seconds of CPU time: a hang makes no steps; a run that makes steps for a minute is given up
        static uint64_t seen; uint64_t n = g_steps + g_acc + n_switch;
        if (n != seen) { seen = n; ticks_quiet = 0; if (++ticks_busy >= 12 || rec.size() > 40000000) { too_slow = true; cfg.step_cap = 0; } return; }
        if (++ticks_quiet < 12) return;
    }
    in_sig = 1;
    sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, nullptr);
    const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGPROF ? "hang" : s == SIGILL ? "SIGILL" : "SIGABRT";
    bool arena = si && in_heap(si->si_addr);
    if (s == SIGSEGV && si && in_guard(cur, si->si_addr)) violate("crash", "library code exhausted its stack");   // the overflow may surface inside a hook
    if (g_host && s != SIGPROF) {
        char b[80]; int k = snprintf(b, sizeof b, "SIGNAL-IN-HOST %s\n", n); if (write(report_fd, b, k)) {} 
        violated = true; v_cls = "host-crash"; v_msg = n; to_driver();
    }
    violate(s == SIGPROF ? "hang" : "crash", "%s in library code%s", n, arena ? " (simulated heap)" : "");
}

void set_workers(int n) { cfg.workers = n; if (cur) cur->icv_threads = 0; }
void random_schedule_config() {
    cfg.policy = (int)choose(4);
    static const uint32_t means[] = {64, 4, 16, 300, 2000};
    cfg.skip_mean = means[choose(5)];
    cfg.task_bias = (int)choose(3);
    cfg.nested = choose(2) == 1;
    cfg.shrink = choose(4) == 3;
    cfg.inner = choose(4) == 3 ? 1 + (int)choose(4) : 0;
    cfg.reuse = choose(4) == 3;
    prio_floor = PRIO;
}

// ------------------------------------------------------------------ registry and run driver
static std::vector<Property> &props() { static std::vector<Property> p; return p; }
Register::Register(Property p) { props().push_back(p); }
static Property *find(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }

struct RunOut { bool violated; std::string cls, msg; uint64_t hash, shash; bool nontriv; uint64_t sched_choices, sw, steps, acc; int64_t simtime; };

static bool raised;
static void no_room() {
    std::set_new_handler(nullptr); struct rlimit l; getrlimit(RLIMIT_DATA, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_DATA, &l); raised = true;      // room to report it
    if (!cur) return;
    if (cfg.step_cap > 300000000 || (fibers.size() > 1000000 && active.size() < 1000)) { probes["given_up"]++; to_driver(); }                               // a long run, not an endless recursion
    violate("runaway", "the run needs more than 2 GiB of bookkeeping: tasks, fibers or choices without end");
}
static RunOut run_one(Property *p, uint64_t seed, const std::vector<uint32_t> *replay) {
    for (Fiber *f : fibers) delete f;
    fibers.clear(); active.clear(); os_thread(-1, 0); for (Process *q : procs) delete q; procs.clear();
    rec.clear(); notes.clear(); faults.clear(); probes.clear();
    if (rec.capacity() > 10000000) std::vector<uint32_t>().swap(rec);
    rng_s = seed; replaying = replay != nullptr; rep = replay; rep_i = 0;
    ev_hash = 0xcbf29ce484222325ull; sched_hash = ev_hash; is_nontrivial = false;
    n_switch = n_sched_choice = 0; sched_events = 0; spawned_live = 0; g_parallel = 0; prio_floor = PRIO; spinner = nullptr; spins = 0;
    g_acc = g_steps = 0; g_budget = INT64_MAX; violated = false; cfg = Config(); g_host = 1;
    wall_ns = 1700000000000000000ll; mono_ns = 5000000000ll; on_clock = nullptr;
    mem_reset(); vfs_reset(); omp_reset(); race_ranges_clear(); threads_reset(); srandom(1); in_sig = 0;
    if (raised) { malloc_trim(0); struct rlimit l; getrlimit(RLIMIT_DATA, &l); l.rlim_cur = (rlim_t)25 << 30; setrlimit(RLIMIT_DATA, &l); std::set_new_handler(no_room); raised = false; }
    cur = nullptr;
    Fiber *root = new_fiber([p] { p->fn(); });
    root->task = new_task(nullptr, nullptr, true);
    int64_t t0 = mono_ns;
    ticks_quiet = ticks_busy = 0; too_slow = false;
    { struct itimerval it = {{5, 0}, {5, 0}}; setitimer(ITIMER_PROF, &it, nullptr); }     // CPU time: a loaded machine is not a hang
    eh_globals[0] = eh_globals[1] = nullptr;
    cur = root; g_host = 1;
    sim_switch(&driver_sp, root->sp);
    { struct itimerval it = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &it, nullptr); }
    cur = nullptr; g_host = 1;
    close_all_silently();
    RunOut o; o.violated = violated; o.cls = v_cls; o.msg = v_msg; o.hash = ev_hash; o.shash = sched_hash;
    o.nontriv = is_nontrivial || n_sched_choice > 0; o.sched_choices = n_sched_choice; o.sw = n_switch;
    o.steps = g_steps; o.acc = g_acc; o.simtime = mono_ns - t0;
    return o;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static void write_all(int fd, const std::string &s) { size_t i = 0; while (i < s.size()) { ssize_t k = write(fd, s.data() + i, s.size() - i); if (k <= 0) break; i += k; } }
static std::string record_json(Property *p, uint64_t seed, long idx, const RunOut &o) {
    std::string s = "{\"property\":" + jstr(p->id) + ",\"seed\":" + std::to_string(seed) + ",\"run\":" + std::to_string(idx) +
        ",\"violated\":" + (o.violated ? "true" : "false") + ",\"class\":" + jstr(o.violated ? o.cls : "") + ",\"message\":" + jstr(o.violated ? o.msg : "") +
        ",\"hash\":\"" + std::to_string(o.hash) + "\",\"steps\":" + std::to_string(o.steps) + ",\"switches\":" + std::to_string(o.sw) + ",\"faults\":{";
    bool first = true;
    for (auto &f : faults) { s += (first ? "" : ",") + jstr(f.first) + ":" + std::to_string(f.second); first = false; }
    s += "},\"choices\":["; for (size_t i = 0; i < rec.size(); i++) { if (i) s += ','; s += std::to_string(rec[i]); }
    s += "],\"trace\":["; for (size_t i = 0; i < notes.size(); i++) { if (i) s += ','; s += jstr(notes[i]); }
    return s + "]}\n";
}
static std::vector<uint32_t> load_choices(const char *path) {
    std::vector<uint32_t> v; FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); _exit(2); }
    std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f);
    size_t p = s.find("\"choices\":"); if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", path); _exit(2); }
    p = s.find('[', p) + 1; size_t e = s.find(']', p);
    while (p < e) { char *q; v.push_back((uint32_t)strtoul(s.c_str() + p, &q, 10)); p = q - s.c_str(); while (p < e && (s[p] == ',' || s[p] == ' ' || s[p] == '\n')) p++; }
    return v;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// run a candidate choice list in a fresh child; true if it violates with class cls
struct Cand { bool ok; std::vector<uint32_t> choices; };
static Cand try_candidate(Property *p, const std::vector<uint32_t> &c, const std::string &cls) {
    int fd[2]; if (pipe(fd)) _exit(2);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); report_fd = open("/dev/null", O_WRONLY);
        RunOut o = run_one(p, 0, &c);
        bool ok = o.violated && o.cls == cls;
        uint32_t n = ok ? (uint32_t)rec.size() : 0xffffffffu;
        std::string s((char *)&n, 4); if (ok) s.append((char *)rec.data(), rec.size() * 4);
        write_all(fd[1], s); _exit(0);
    }
    close(fd[1]);
    std::string s; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    close(fd[0]); int st; waitpid(pid, &st, 0);
    Cand r; r.ok = false;
    if (s.size() >= 4) { uint32_t n; memcpy(&n, s.data(), 4); if (n != 0xffffffffu && s.size() == 4 + (size_t)n * 4) { r.ok = true; r.choices.resize(n); memcpy(r.choices.data(), s.data() + 4, (size_t)n * 4); } }
    return r;
}
static uint64_t weight(const std::vector<uint32_t> &c) { uint64_t n = 0; for (uint32_t v : c) n += (v != 0); return n; }
static void minimise(Property *p, std::vector<uint32_t> &c, const std::string &cls, double budget) {
    double end = now() + budget;
    auto norm = [](std::vector<uint32_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
    auto attempt = [&](std::vector<uint32_t> cand) -> bool {
        if (now() > end) return false;
        cand = norm(cand); if (cand == c) return false;
        Cand r = try_candidate(p, cand, cls);
        if (!r.ok) return false;
        // accept only if simpler
        if (cand.size() < c.size() || (cand.size() == c.size() && weight(cand) < weight(c)) || cand < c) { c = cand; return true; }
        return false;
    };
    c = norm(c);
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t n = c.size() / 2; n >= 1 && now() < end; n /= 2) {            // cut the tail
            while (c.size() > n && attempt(std::vector<uint32_t>(c.begin(), c.end() - n))) progress = true;
        }
        for (size_t len = c.size() / 2; len >= 1 && now() < end; len /= 2) {        // zero or delete chunks
            for (size_t i = 0; i + len <= c.size() && now() < end; i += len) {
                std::vector<uint32_t> z = c; bool any = false;
                for (size_t j = i; j < i + len; j++) { any |= z[j] != 0; z[j] = 0; }
                if (any && attempt(z)) { progress = true; continue; }
                if (len <= 64 && i + len <= c.size()) { std::vector<uint32_t> d = c; d.erase(d.begin() + i, d.begin() + i + len); if (attempt(d)) progress = true; }
            }
        }
        for (size_t i = 0; i < c.size() && now() < end; i++) {                      // shrink values
            while (i < c.size() && c[i] > 1 && now() < end) { std::vector<uint32_t> z = c; z[i] /= 2; if (!attempt(z)) break; progress = true; }
            if (i < c.size() && c[i] > 0) { std::vector<uint32_t> z = c; z[i]--; if (attempt(z)) progress = true; }
        }
    }
}

extern "C" uint64_t sim_cov_count(uint64_t *total);
static uint64_t mixseed(uint64_t a, uint64_t b, uint64_t c) { uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x51ED270B) * 0xD6E8FEB86659FD93ull; s ^= s >> 32; s = (s + c) * 0xD6E8FEB86659FD93ull; s ^= s >> 29; return s * 0x9E3779B97F4A7C15ull; }

} // namespace sim
using namespace sim;

int main(int argc, char **argv) {
    std::map<std::string, std::string> a; std::vector<std::string> known; std::map<std::string, uint64_t> known_hits;
    for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--known")) known.push_back(argv[i + 1]); else a[argv[i]] = argv[i + 1]; }
    Property *p = find(a["--prop"]);
    if (!p) { fprintf(stderr, "unknown property %s\n", a["--prop"].c_str()); return 2; }
    report_fd = dup(1);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("SIM_STDERR")) dup2(dn, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = (rlim_t)25 << 30; rl.rlim_max = (rlim_t)27 << 30; setrlimit(RLIMIT_DATA, &rl);               // the fixed areas take 22 GiB of it
    std::set_new_handler(no_room);
    mem_init(); eh_globals = (void **)abi::__cxa_get_globals();
    std::set_terminate([] { if (!cur) _exit(4); const char *n = "uncaught exception"; if (auto *t = abi::__cxa_current_exception_type()) n = t->name(); end_process(FAILSTOP, 134, std::string("terminate: ") + n); });
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGABRT, SIGPROF, SIGILL}) sigaction(s, &sa, nullptr);
    uint64_t vseed = strtoull(a["--seed"].c_str(), nullptr, 10);
    uint64_t pid = 0; for (const char *c = p->id; *c; c++) pid = pid * 131 + *c;

    if (a.count("--replay")) {                       // replay a file, print the record
        std::vector<uint32_t> c = load_choices(a["--replay"].c_str());
        RunOut o = run_one(p, 0, &c);
        write_all(report_fd, record_json(p, vseed, -1, o));
        _exit(0);
    }
    if (a.count("--minimise")) {
        std::vector<uint32_t> c = load_choices(a["--minimise"].c_str());
        RunOut o; { Cand r; std::string cls = a["--class"]; minimise(p, c, cls, atof(a["--budget"].c_str())); }
        std::string s = "{\"choices\":["; for (size_t i = 0; i < c.size(); i++) { if (i) s += ','; s += std::to_string(c[i]); }
        write_all(report_fd, s + "]}\n"); _exit(0);
    }
    long start = atol(a["--start"].c_str()), stride = a.count("--stride") ? atol(a["--stride"].c_str()) : 1, runs = atol(a["--runs"].c_str());
    double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 1e9, t0 = now();
    bool hashes = a.count("--hashes"); double slow = getenv("SIM_SLOW") ? atof(getenv("SIM_SLOW")) : 0;     // report runs that take longer than this many seconds
    std::unordered_set<uint64_t> distinct, dsched; std::string sample; int nsamples = 0; std::string hashlog;
    uint64_t n = 0, nt = 0, steps = 0, sw = 0, acc = 0, simt = 0; long last = -1;
    for (long i = start; i < runs; i += stride) {
        if (now() - t0 > budget) break;
        uint64_t seed = mixseed(vseed, pid, i);
        double r0 = now(); RunOut o = run_one(p, seed, nullptr);
        if (slow > 0 && now() - r0 > slow) write_all(report_fd, "SLOW run " + std::to_string(i) + ": " + std::to_string(now() - r0) + " s, " + std::to_string(o.steps) + " steps, " + std::to_string(o.sw) + " switches, " + (notes.empty() ? "" : notes[0]) + "\n");
        n++; last = i;
        if (hashes) { uint64_t rh = 0; for (uint32_t v : rec) rh = rh * 31 + v; hashlog += std::to_string(i) + " " + std::to_string(o.hash) + "/" + std::to_string(o.steps) + "/" + std::to_string(o.acc) + "/" + std::to_string(o.sw) + "/" + std::to_string(rec.size()) + "/" + std::to_string(rh) + "/" + std::to_string(o.simtime) + "\n"; }
        if (o.violated) {                        // a listed finding: class|substring of the message
            bool listed = false;
            for (auto &k : known) { size_t b = k.find('|'); if (o.cls == k.substr(0, b) && o.msg.find(k.substr(b + 1)) != std::string::npos) { known_hits[k]++; listed = true; break; } }
            if (listed) continue;
        }
        if (o.violated) { write_all(report_fd, "VIOL " + record_json(p, vseed, i, o)); break; }
        for (auto &f : faults) all_faults[f.first] += f.second;
        for (auto &f : probes) all_probes[f.first] += f.second;
        steps += o.steps; sw += o.sw; acc += o.acc; simt += o.simtime + (int64_t)o.acc;
        if (o.sched_choices) dsched.insert(o.shash);
        if (o.nontriv && distinct.insert(o.hash).second) nt++;
        if (nsamples < 2 && o.nontriv && i > start + stride) { RunOut c = o; std::string r = record_json(p, vseed, i, c); if (r.size() < 6000) { if (nsamples) sample += ","; sample += r; nsamples++; } }
    }
    std::string s = "STAT {\"runs\":" + std::to_string(n) + ",\"nontrivial_distinct\":" + std::to_string(nt) + ",\"distinct_schedules\":" + std::to_string(dsched.size()) +
        ",\"steps\":" + std::to_string(steps) + ",\"switches\":" + std::to_string(sw) + ",\"accesses\":" + std::to_string(acc) + ",\"sim_ns\":" + std::to_string(simt) + ",\"last\":" + std::to_string(last) +
        ",\"wall\":" + std::to_string(now() - t0) + ",\"faults\":{";
    bool f1 = true; for (auto &f : all_faults) { s += (f1 ? "" : ",") + jstr(f.first) + ":" + std::to_string(f.second); f1 = false; }
    s += "},\"probes\":{"; f1 = true; for (auto &f : all_probes) { s += (f1 ? "" : ",") + jstr(f.first) + ":" + std::to_string(f.second); f1 = false; }
    s += "},\"known\":{"; f1 = true; for (auto &f : known_hits) { s += (f1 ? "" : ",") + jstr(f.first) + ":" + std::to_string(f.second); f1 = false; }
    uint64_t tot, hit = sim_cov_count(&tot);
    s += "},\"cov\":[" + std::to_string(hit) + "," + std::to_string(tot) + "],\"rule\":" + jstr(p->rule) + ",\"real\":" + jstr(p->real) + ",\"stub\":" + jstr(p->stub) + ",\"samples\":[" + sample + "]}\n";
    for (char &c : s) if (c == '\n') c = ' '; s += "\n";
    write_all(report_fd, s);
    if (hashes) write_all(report_fd, "HASHES\n" + hashlog);
    _exit(0);
}

// ------------------------------------------------------------------ pthread and std::thread entry points of library code
using namespace sim;
extern "C" {
int __wrap_pthread_mutex_lock(void *); int __wrap_pthread_mutex_unlock(void *);
int __wrap_pthread_create(uint64_t *t, const void *, void *(*f)(void *), void *a) { Host h; *t = thread_start([f, a] { f(a); }); return 0; }
int __wrap_pthread_join(uint64_t t, void **r) { Host h; if (r) *r = nullptr; return thread_join(t) ? 0 : 3; }
int __wrap_pthread_detach(uint64_t) { return 0; }
static std::map<void *, uint64_t> conds;
int __wrap_pthread_cond_init(void *c, const void *) { Host h; conds[c] = 0; return 0; }
int __wrap_pthread_cond_destroy(void *c) { Host h; conds.erase(c); return 0; }
int __wrap_pthread_cond_wait(void *c, void *m) { uint64_t g; { Host h; g = conds[c]; } __wrap_pthread_mutex_unlock(m); { Host h; block_until([c, g] { return conds[c] != g; }); } __wrap_pthread_mutex_lock(m); return 0; }
int __wrap_pthread_cond_signal(void *c) { Host h; conds[c]++; return 0; }      // may wake more than one waiter: allowed
int __wrap_pthread_cond_broadcast(void *c) { Host h; conds[c]++; return 0; }
unsigned lib_concurrency() asm("__wrap__ZNSt6thread20hardware_concurrencyEv");
unsigned lib_concurrency() { return cfg.workers; }
void lib_start(uint64_t *id, void **state, void (*)()) asm("__wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void lib_start(uint64_t *id, void **state, void (*)()) {       // state: a unique_ptr to an object with a virtual destructor and _M_run
    Host h; void *s = *state; *state = nullptr;
    *id = thread_start([s] { void **vt = *(void ***)s; ((void (*)(void *))vt[2])(s); ((void (*)(void *))vt[1])(s); });
}
void lib_join(uint64_t *id) asm("__wrap__ZNSt6thread4joinEv");
void lib_join(uint64_t *id) { Host h; thread_join(*id); *id = 0; }
void lib_detach(uint64_t *id) asm("__wrap__ZNSt6thread6detachEv");
void lib_detach(uint64_t *id) { *id = 0; }
void lib_cv_wait(void *c, void **lock) asm("__wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE");
void lib_cv_wait(void *c, void **lock) { __wrap_pthread_cond_wait(c, *lock); }
void lib_cv_one(void *c) asm("__wrap__ZNSt18condition_variable10notify_oneEv");
void lib_cv_one(void *c) { __wrap_pthread_cond_signal(c); }
void lib_cv_all(void *c) asm("__wrap__ZNSt18condition_variable10notify_allEv");
void lib_cv_all(void *c) { __wrap_pthread_cond_signal(c); }
}
