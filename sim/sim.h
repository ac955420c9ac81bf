// Deterministic simulator for the GSB library: public interface for harnesses.
//
// Everything runs in ONE OS thread.  "Guest" code is library code compiled with
// -fsanitize=thread (compile only) and linked against this simulator instead of
// libomp/libtsan; it runs on fibers and reaches the simulator at every memory
// access, OpenMP runtime call, allocation, stdio call and clock reading.
// "Host" code is the harness (oracles, workload generators) and the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace sim {

// ---------------------------------------------------------------- choices
uint32_t choose(uint32_t n);                  // uniform in [0,n); 0 is the tame default
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
uint32_t seed32();                            // one raw draw that seeds bulk content
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }

struct Rng {                                  // local generator for bulk content
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 33) % n) : 0; }
};

// ---------------------------------------------------------------- host/guest
extern int g_host;                            // >0: host code is running
struct Guest { int old; Guest() : old(g_host) { g_host = 0; } ~Guest() { g_host = old; } };
struct Host  { int old; Host()  : old(g_host) { g_host = 1; } ~Host()  { g_host = old; } };
template <class F> inline void guest(F f) { Guest g; f(); }

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line
void fault(const char *kind);                 // a fault of this kind really fired
void probe(const char *name);                 // a rare condition was reached
void mix(uint64_t v);                         // fold a value into the run's event hash
void nontrivial();                            // mark the run as non-trivial

// ---------------------------------------------------------------- configuration of one run
enum { RACE_OFF = 0, RACE_ALL = 1, RACE_RANGES = 2 };
struct Config {
    int  workers = 4;           // omp_get_max_threads()
    bool nested = false;        // nested parallel regions get real teams
    int  inner = 0;             // OMP_NUM_THREADS=workers,inner: value in force inside a parallel region (0: the same)
    bool shrink = false;        // teams may get fewer threads than requested
    bool preempt = true;        // preempt at memory accesses
    uint32_t skip_mean = 64;    // mean number of accesses between preemptions
    int  policy = 0;            // 0 random, 1 priorities, 2 run-to-block, 3 stalls
    int  task_bias = 0;         // 0 mixed, 1 mostly inline, 2 mostly deferred
    int  race = RACE_OFF;
    bool handle_check = false;  // double close / use after close is a violation
    bool mem_check = true;      // out-of-bounds / use-after-free is a violation
    uint64_t step_cap = 300000000;
    uint8_t fill = 0xA5;        // contents of fresh memory
    int  nofail_left = -1;      // nothrow allocations: fail when counter hits 0 (-1 never)
    int  malloc_left = -1;      // malloc family: fail when counter hits 0 (-1 never)
    size_t malloc_limit = (size_t)1 << 28; // larger requests fail
    bool fp_trap = false;
    bool reuse = false;         // freed memory is handed out again at once, with its old contents
};
extern Config cfg;
void random_schedule_config(); // draws policy, preemption rate, nesting, shrinking...
void set_workers(int n);

// ---------------------------------------------------------------- guest memory
void statics_reset();                          // a new process: the library's static data is as before main()
void *galloc(size_t bytes);                   // guest heap block (bounds-checked)
void  gfree(void *p);
template <class T> T *garray(size_t n) { return (T *)galloc(n * sizeof(T)); }
template <class T> T *garray(const std::vector<T> &v) {
    T *p = (T *)galloc(v.size() * sizeof(T));
    if (!v.empty()) memcpy((void *)p, v.data(), v.size() * sizeof(T));
    return p;
}
bool  glive(const void *p, size_t n);         // inside live guest memory?
uint64_t ghash(const void *skip, size_t skip_bytes, size_t *blocks); // hash of all live blocks but one
size_t glive_count();                         // number of live guest blocks
size_t gmark();                                // number of guest blocks handed out so far
uint64_t ghash_upto(size_t mark, const void *skip, size_t skip_bytes); // as ghash, older blocks only
void race_range(const void *p, size_t n);     // watch this range in RACE_RANGES mode
void race_ranges_clear();

// ---------------------------------------------------------------- concurrency
void spawn(std::function<void()> f);          // new application thread (host code; use guest())
void join_all();                              // wait for all spawned threads
uint64_t switches();                          // context switches so far in this run
uint64_t accesses();

// ---------------------------------------------------------------- guarded execution
enum Outcome { RETURNED, EXITED, FAILSTOP, CRASHED };
struct Result { Outcome outcome = RETURNED; int code = 0; std::string msg; };
Result guarded(std::function<void()> f);      // exit()/abort()/assert/simulated crash end up here
const char *outcome_name(Outcome o);

// ---------------------------------------------------------------- simulated storage
enum IoKind { IO_NONE, IO_OPEN_FAIL, IO_READ_ERR, IO_WRITE_ERR, IO_NOSPACE, IO_CLOSE_FAIL, IO_CRASH };
struct IoPlan {
    IoKind kind = IO_NONE;
    long at = -1;              // index of the eligible operation that is hit
    bool sticky = true;        // later operations of that handle keep failing
    bool short_ops = false;    // reads/writes may transfer fewer bytes
    bool random_buf = false;   // random stdio buffer sizes
    int buf = 0;               // stdio buffer size of every file (0: default)
    bool unseekable = false;   // every file is like a pipe
    long space = -1;           // bytes that still fit on the disk (-1 unlimited)
};
extern IoPlan io;
struct IoStats { long opens = 0, reads = 0, writes = 0, closes = 0, ops = 0; bool fired = false, lost_data = false;
                 bool read_err = false, write_err = false, nospace = false, close_fail = false, open_fail = false; };
extern IoStats iostat;
void io_reset();                               // forget plan and counters, keep files
std::map<std::string, std::string> &fs();      // path -> contents
void fs_mkdir(const std::string &d);
int  open_handles();
int  double_closes();
int  use_after_close();
void close_all_silently();                     // the process is gone: drop its handles
void flush_all();                              // normal process end
std::string &captured();                       // guest stdout of the current run
void capture_stdout(bool on);
extern std::vector<std::string> shell_cmds;    // recorded system() calls

// ---------------------------------------------------------------- simulated clocks
extern int64_t wall_ns, mono_ns;
void advance(int64_t ns);                      // time passes
extern std::function<void()> on_clock;         // called at every clock reading

// ---------------------------------------------------------------- registry
struct Property {
    const char *id;
    void (*fn)();
    const char *rule;
    const char *real, *stub;
};
struct Register { Register(Property p); };

} // namespace sim
