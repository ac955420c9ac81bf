#pragma once
#include "sim.h"
#include <vector>
#include <deque>
#include <memory>
#include <list>
#include <unordered_map>
namespace sim {

typedef std::vector<uint32_t> VC;
inline void vc_join(VC &a, const VC &b) {
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i];
}

struct Team;
struct TaskGroup { int pending = 0; TaskGroup *outer = nullptr; VC vc; };
struct Task {
    uint32_t id = 0;            // logical thread of control, index into vector clocks
    Task *parent = nullptr;
    Team *team = nullptr;
    int children = 0;           // incomplete child tasks
    VC vc, child_vc, dep_vc;    // own clock; clocks of completed children
    TaskGroup *group = nullptr; // group the task was created in
    TaskGroup *cur_group = nullptr; // innermost group opened by this task
    void *user = nullptr;
    int  (*routine)(int, void *) = nullptr;
    bool implicit = false, done = false, again = false;   // again: an untied task asked to be continued
    int refs = 0;
};

struct WS {                     // one worksharing loop instance of a team
    int kind = 0; bool ordered = false;
    int64_t lb = 0, ub = 0, st = 1, chunk = 1; uint64_t trip = 0, next = 0, guided_left = 0;
    uint64_t ordered_iter = 0; int finished = 0; VC ord_vc;
};
struct Team {
    Team *parent = nullptr; int level = 0, active_level = 0, n = 1; int parent_tid = 0;
    std::deque<Task *> pool; int incomplete = 0;
    int arrived = 0; uint64_t gen = 0; VC acc, rel;
    std::unordered_map<uint64_t, WS> ws;
    std::unordered_map<uint64_t, int> singles;
    VC single_vc; void *copy_data = nullptr; int workers_left = 0;
};
struct Process;
struct Fiber {
    int id = 0; int os_tid = 0; uintptr_t low = 0; void *sp = nullptr; char *stack = nullptr; size_t stack_size = 0;
    std::function<void()> entry;
    enum State { READY, BLOCKED, DONE } state = READY;
    std::function<bool()> wake;      // BLOCKED: may run when true
    int host = 1;
    uint32_t prio = 0; uint64_t stalled_until = 0;
    Team *team = nullptr; int tid = 0; Task *task = nullptr;
    uint64_t ws_idx = 0, single_idx = 0, ord_iter = 0; WS *cur_ws = nullptr;
    uint64_t static_next = 0; uint64_t cur_ws_key = 0;
    int push_threads = 0, icv_threads = 0; Process *proc = nullptr; uint64_t steps = 0;
    void *eh[2] = {nullptr, nullptr};   // exceptions being handled (__cxa_eh_globals)
};
struct Process { Fiber *waiter = nullptr; bool over = false; Result res; };

extern Fiber *cur;
Fiber *new_fiber(std::function<void()> entry);
void block_until(std::function<bool()> pred);   // current fiber waits
void sched_point();                             // voluntary scheduling point
void yield_point();                             // as above, and let others go first
Task *new_task(Task *parent, Team *team, bool implicit);
[[noreturn]] void end_process(Outcome o, int code, const std::string &msg);
uint64_t live_fibers(), total_fibers();

// mem
void mem_init(); void mem_reset();
char *stack_alloc(size_t *size);
bool in_guard(Fiber *f, const void *p);
extern bool g_race; extern int64_t g_budget; extern uint64_t g_acc, g_steps;
extern int g_parallel;        // nesting count of outermost regions / extra roots
void race_on(); void race_off();
void stack_free(Fiber *f); void stack_dead_below(Fiber *f, uintptr_t sp); Fiber *stack_owner(uintptr_t a);
void race_kill(); bool race_over(); void full_fence(); void sync_acquire(uint64_t key); void sync_release(uint64_t key); void preempt();
int os_thread(int parent, int tid);   // identity of a pooled OpenMP thread
bool in_heap(const void *p);
extern bool out_of_arena;
size_t heap_size(const void *p);  // size of live block starting at p or 0
void check_range(const void *p, size_t n, bool write, const char *what);
void vfs_reset();
void omp_reset();
void refill_budget();
[[noreturn]] void to_driver();
}
