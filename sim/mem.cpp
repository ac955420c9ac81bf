// Guest memory: bounds-checked heap, fiber stacks, race detector, allocation faults,
// compiler hooks (-fsanitize=thread, -fsanitize-coverage, emulated TLS, guards).
#include "internal.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <new>
#include <algorithm>
#include <map>

extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); extern char __data_start, _end; }

namespace sim {
static const uintptr_t BASE = 0x200000000000ull;
static const size_t HEAP = (size_t)1 << 30, STACKS = (size_t)1 << 31, ARENA = HEAP + STACKS;
static const size_t SSIZE = 1 << 20, RSIZE = 4 << 20;
static uint8_t *const shadow = (uint8_t *)0x210000000000ull;        // HEAP/8
struct Cell { uint64_t w, r0, r1; };
static Cell *const cells = (Cell *)0x220000000000ull;               // ARENA/4
static Cell *dcells; static uintptr_t dlo, dhi;                     // data segment
static size_t bump, stack_bump, heap_used_max;
struct Block { uintptr_t a; size_t n; bool live; size_t cap; };
static std::vector<Block> *blocks;
static std::vector<uint32_t> *recent; static size_t reuse_floor;    // freed blocks, for cfg.reuse
static std::map<size_t, std::vector<uint32_t>> *spare;      // the others by size, used once the heap is nearly full
bool out_of_arena;
static std::vector<std::pair<char *, size_t>> *free_stacks;
static uint64_t run_id;
bool g_race;
static bool race_dead;

static void *map_at(uintptr_t a, size_t n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { perror("mmap"); _exit(2); }
    return p;
}
static std::map<std::pair<int, void *>, void *> *tls;
// the library's own static data: as it was before main() at the start of every run and of every process
extern "C" char sim_guest_data_begin[], sim_guest_data_end[], sim_guest_bss_begin[], sim_guest_bss_end[];
static char *image;
void statics_reset() {
    size_t d = sim_guest_data_end - sim_guest_data_begin, b = sim_guest_bss_end - sim_guest_bss_begin;
    if ((ptrdiff_t)d < 0 || (ptrdiff_t)b < 0 || d > (64u << 20) || b > (64u << 20)) { fprintf(stderr, "library data is not contiguous\n"); _exit(2); }
    if (!image) { image = (char *)__real_malloc(d + b + 1); memcpy(image, sim_guest_data_begin, d); memcpy(image + d, sim_guest_bss_begin, b); return; }
    memcpy(sim_guest_data_begin, image, d); memcpy(sim_guest_bss_begin, image + d, b);
    if (!tls) tls = new std::map<std::pair<int, void *>, void *>;
    for (auto &t : *tls) __real_free(t.second);
    tls->clear();
}
void mem_init() {
    statics_reset();
    map_at(BASE, ARENA); map_at((uintptr_t)shadow, HEAP / 8); map_at((uintptr_t)cells, ARENA / 4 * sizeof(Cell));
    dlo = (uintptr_t)&__data_start & ~7ull; dhi = (uintptr_t)&_end;
    dcells = (Cell *)mmap(nullptr, ((dhi - dlo) / 4 + 8) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = new std::vector<Block>; recent = new std::vector<uint32_t>; spare = new std::map<size_t, std::vector<uint32_t>>; free_stacks = new std::vector<std::pair<char *, size_t>>;
    memset(shadow, 0xfa, 1 << 20); heap_used_max = 8 << 20;
}
void rand_reset();
static std::unordered_map<uint64_t, VC> *sync_vc;
struct AtomRec { uint32_t id, clk, mask; bool w; };
static std::unordered_map<uintptr_t, std::vector<AtomRec>> *atoms;     // atomic accesses of this epoch, by granule of 4 bytes
struct Fences { VC released, pending; };                                // what relaxed stores publish, what relaxed loads have seen
static std::map<int, Fences> *fences;                                   // by simulated OS thread
void mem_reset() {
    size_t used = std::min(HEAP, bump + 4096);
    memset(shadow, 0xfa, used / 8);
    if (bump > (64u << 20)) { madvise((void *)(BASE + (16u << 20)), HEAP - (16u << 20), MADV_DONTNEED); madvise(cells + (4u << 20), (HEAP / 4 - (4u << 20)) * sizeof(Cell), MADV_DONTNEED); }
    statics_reset(); bump = 64; stack_bump = 0; blocks->clear(); free_stacks->clear(); recent->clear(); spare->clear(); reuse_floor = 0; out_of_arena = false;
    g_race = false; race_dead = false;
    if (!sync_vc) { sync_vc = new std::unordered_map<uint64_t, VC>; atoms = new std::unordered_map<uintptr_t, std::vector<AtomRec>>; fences = new std::map<int, Fences>; }
    sync_vc->clear(); atoms->clear(); fences->clear(); rand_reset(); 
}
bool in_heap(const void *p) { return (uintptr_t)p - BASE < HEAP; }
static bool in_stack(const void *p) { return (uintptr_t)p - BASE - HEAP < STACKS; }
static Block *find_block(uintptr_t a) {
    auto it = std::upper_bound(blocks->begin(), blocks->end(), a, [](uintptr_t x, const Block &b) { return x < b.a; });
    if (it == blocks->begin()) return nullptr;
    --it; return &*it;
}
size_t heap_size(const void *p) { Block *b = find_block((uintptr_t)p); return b && b->a == (uintptr_t)p && b->live ? b->n : 0; }

// ---------------------------------------------------------------- stacks
static const size_t GUARD = 64 << 10;
char *stack_alloc(size_t *size) {
    if (*size == 0) *size = SSIZE;
    for (size_t i = free_stacks->size(); i-- > 0;) if ((*free_stacks)[i].second == *size) { char *p = (*free_stacks)[i].first; free_stacks->erase(free_stacks->begin() + i); return p; }
    size_t need = *size + GUARD;
    if (stack_bump + need > STACKS) violate("harness-limit", "too many simulated threads");
    char *p = (char *)(BASE + HEAP + stack_bump); stack_bump += need;
    mprotect(p, GUARD, PROT_NONE);
    return p + GUARD;
}
bool in_guard(Fiber *f, const void *p) { return (uintptr_t)f->stack - (uintptr_t)p - 1 < GUARD; }
static void clear_cells(uintptr_t lo, uintptr_t hi) {
    if (!atoms->empty()) for (auto it = atoms->begin(); it != atoms->end();) if (it->first * 4 >= lo && it->first * 4 < hi) it = atoms->erase(it); else ++it;
    lo = (lo - BASE) / 4; hi = (hi - BASE + 3) / 4;
    if (hi > lo) memset(&cells[lo], 0, (hi - lo) * sizeof(Cell));
}
void stack_dead_below(Fiber *f, uintptr_t sp) {           // frames below sp no longer exist
    if (f->low < sp) clear_cells(f->low, sp);
    f->low = sp;
}
void stack_free(Fiber *f) { uintptr_t top = (uintptr_t)f->stack + f->stack_size; stack_dead_below(f, top); free_stacks->push_back({f->stack, f->stack_size}); }

// ---------------------------------------------------------------- heap
static void take_block(Block &b, size_t n) {               // hand out a freed block again
    b.n = n; b.live = true; clear_cells(b.a, b.a + b.cap);
    uint8_t *s = shadow + ((b.a - BASE) >> 3); memset(s, 0, n >> 3); if (n & 7) s[n >> 3] = n & 7;
}
static void *arena_alloc(size_t n, size_t align) {
    if (n > cfg.malloc_limit) { if (cfg.malloc_limit >= (size_t)1 << 28 && n <= (size_t)1 << 32) out_of_arena = true; return nullptr; }
    if (cfg.reuse && n) for (size_t i = recent->size(), k = 0; i-- > 0 && k < 16; k++) {
        Block &b = (*blocks)[(*recent)[i]];
        if (b.cap < n || b.cap > 4 * n + 64 || b.a % align || (*recent)[i] < reuse_floor) continue;
        recent->erase(recent->begin() + i);
        take_block(b, n);
        return (void *)b.a;
    }
    size_t gap = 32 + std::min<size_t>(n, 1024);
    if (bump + n > (cfg.race ? HEAP / 2 : HEAP) / 4 * 3) for (auto it = spare->lower_bound(n); it != spare->end() && it->first <= 2 * n + 64; ++it) for (size_t i = it->second.size(), k = 0; i-- > 0 && k < 4; k++) {
        Block &b = (*blocks)[it->second[i]]; if (b.a % align || it->second[i] < reuse_floor) continue;
        it->second.erase(it->second.begin() + i); if (it->second.empty()) spare->erase(it);
        memset((void *)b.a, cfg.fill, n); take_block(b, n); return (void *)b.a;
    }
    size_t start = (bump + gap + align - 1) & ~(align - 1);
    if (start + n + gap + 64 > (cfg.race ? HEAP / 2 : HEAP)) { out_of_arena = true; return nullptr; }   // the race detector needs 7 times as much memory
    uintptr_t a = BASE + start;
    bump = (start + n + 7) & ~(size_t)7; bump += gap;
    uint8_t *s = shadow + (start >> 3);
    // everything not handed out reads 0xfa
    if (bump > heap_used_max) { size_t to = std::min(HEAP, bump + (8u << 20)); memset(shadow + heap_used_max / 8, 0xfa, (to - heap_used_max) / 8); heap_used_max = to; }
    memset(s, 0, n >> 3); if (n & 7) s[n >> 3] = n & 7;
    memset((void *)a, cfg.fill, n);
    blocks->push_back({a, n, true, n});
    return (void *)a;
}
static const char *describe(uintptr_t a, char *buf, size_t cap) {
    Block *b = find_block(a);
    if (!b) snprintf(buf, cap, "outside any block");
    else snprintf(buf, cap, "%ld bytes from the start of a %zu-byte %s block", (long)(a - b->a), b->n, b->live ? "live" : "freed");
    return buf;
}
static void __attribute__((noinline, cold)) bad_access(uintptr_t a, size_t n, bool w, const char *what) {
    if (!cfg.mem_check) return;
    char b[128];
    violate("memory-error", "%s of %zu bytes %s%s%s", w ? "write" : "read", n, describe(a, b, sizeof b), what ? " by " : "", what ? what : "");
}
static inline bool shadow_ok(uintptr_t a, size_t n) {
    size_t o = a - BASE;
    if (n > HEAP || o + n > HEAP) return false;
    size_t last = o + n - 1;
    for (size_t i = o >> 3; i < last >> 3; i++) if (shadow[i]) return false;
    uint8_t s = shadow[last >> 3];
    return s == 0 || (s < 8 && (last & 7) < s);
}
bool glive(const void *p, size_t n) { return n == 0 || (in_heap(p) && shadow_ok((uintptr_t)p, n)); }
static bool valid_free(void *p) {
    Block *b = find_block((uintptr_t)p);
    if (b && b->a == (uintptr_t)p && b->live) return true;
    if (b && b->a == (uintptr_t)p) violate("memory-error", "double free");
    violate("memory-error", "free of a pointer that was not allocated");
}
static void race_check(uintptr_t a, size_t n, bool w);
static void arena_free(void *p) {
    valid_free(p);
    Block *b = find_block((uintptr_t)p);
    if (g_race && g_parallel && cfg.race == RACE_ALL && b->n) race_check(b->a, b->n, true);
    b->live = false;
    memset(shadow + ((b->a - BASE) >> 3), 0xfd, (b->n + 7) >> 3);
    if (cfg.reuse) recent->push_back(b - blocks->data()); else { memset(p, 0xDD, b->n); if (b->n >= 64) (*spare)[b->cap].push_back(b - blocks->data()); }
}
void *galloc(size_t n) { size_t lim = cfg.malloc_limit; cfg.malloc_limit = HEAP; void *p = arena_alloc(n, 16); cfg.malloc_limit = lim; if (!p) violate("harness-limit", "guest heap exhausted"); return p; }
void gfree(void *p) { if (p) arena_free(p); }
size_t glive_count() { size_t n = 0; for (auto &b : *blocks) n += b.live; return n; }
size_t gmark() { return reuse_floor = blocks->size(); }
uint64_t ghash_upto(size_t mark, const void *skip, size_t skip_bytes) {
    uint64_t h = 0xcbf29ce484222325ull; uintptr_t s0 = (uintptr_t)skip, s1 = s0 + skip_bytes;
    for (size_t k = 0; k < mark && k < blocks->size(); k++) {
        const Block &b = (*blocks)[k];
        h = (h ^ b.n ^ ((uint64_t)b.live << 60)) * 0x100000001B3ull;
        if (!b.live) continue;
        size_t i = 0;
        auto bytes = [&](uintptr_t lo, uintptr_t hi) { for (; lo < hi; lo++) h = (h ^ *(uint8_t *)lo) * 0x100000001B3ull; }; (void)i;
        uintptr_t e = b.a + b.n;
        if (s1 <= b.a || s0 >= e) bytes(b.a, e); else { bytes(b.a, std::max(s0, b.a)); bytes(std::min(s1, e), e); }
    }
    return h;
}
uint64_t ghash(const void *skip, size_t skip_bytes, size_t *count) {
    uint64_t h = 0xcbf29ce484222325ull; size_t k = 0;
    uintptr_t s0 = (uintptr_t)skip, s1 = s0 + skip_bytes;
    for (auto &b : *blocks) {
        if (!b.live) continue;
        k++; h = (h ^ b.n) * 0x100000001B3ull;
        for (size_t i = 0; i < b.n; i++) {
            uintptr_t a = b.a + i; if (a >= s0 && a < s1) continue;
            h = (h ^ *(uint8_t *)a) * 0x100000001B3ull;
        }
    }
    if (count) *count = k;
    return h;
}

// ---------------------------------------------------------------- races
static std::vector<std::pair<uintptr_t, uintptr_t>> ranges;
void race_range(const void *p, size_t n) { ranges.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void race_ranges_clear() { ranges.clear(); }
void epoch_ids();
// Accesses are recorded only while something runs in parallel.  When that begins
// anew, everything recorded is in the past of the one thread there is: forget it.
static void new_epoch() {
    if (++run_id > 0x3fff) { run_id = 1; madvise(cells, ARENA / 4 * sizeof(Cell), MADV_DONTNEED); madvise(dcells, ((dhi - dlo) / 4 + 8) * sizeof(Cell), MADV_DONTNEED); }
    sync_vc->clear(); atoms->clear(); fences->clear(); race_dead = false; epoch_ids();
}
void race_on() { if (g_parallel++ == 0) { g_race = cfg.race != RACE_OFF; if (g_race) new_epoch(); } }
void race_off() { if (g_parallel > 0 && --g_parallel == 0) { g_race = false; g_budget = INT64_MAX; } }
void race_kill() { race_dead = true; g_race = false; }
bool race_over() { return race_dead; }

static inline uint64_t pack(uint32_t mask, uint32_t tid, uint32_t clk) { return (run_id << 50) | ((uint64_t)mask << 46) | ((uint64_t)tid << 30) | (clk & 0x3fffffff); }
static inline bool conflicts(uint64_t e, uint32_t mask, uint32_t tid, const VC &vc) {
    if ((e >> 50) != run_id) return false;
    if (!((e >> 46) & mask & 15)) return false;
    uint32_t t = (e >> 30) & 0xffff; if (t == tid) return false;
    uint32_t c = e & 0x3fffffff;
    return t >= vc.size() || c > vc[t];
}
static inline bool ordered_or_mine(uint64_t e, uint32_t tid, const VC &vc) { return !conflicts(e, 15, tid, vc) ; }
static uintptr_t a_cell(Cell *c) { return c >= cells && c < cells + ARENA / 4 ? BASE / 4 + (c - cells) : dlo / 4 + (c - dcells); }
static void race_cell(Cell *c, uint32_t mask, bool w, uintptr_t a, size_t n) {
    Task *t = cur->task; const VC &vc = t->vc; uint32_t id = t->id;
    const char *k = nullptr;
    if (conflicts(c->w, mask, id, vc)) k = w ? "two writes" : "a read and an earlier write";
    else if (w && (conflicts(c->r0, mask, id, vc) || conflicts(c->r1, mask, id, vc))) k = "a write and an earlier read";
    if (k) {
        g_host = 1; char b[128]; describe(a, b, sizeof b);
        violate("data-race", "%s of the same memory by unordered workers (%zu bytes, %s)", k, n, in_heap((void *)a) ? b : in_stack((void *)a) ? "stack variable" : "global variable");
    }
    if (!atoms->empty()) {                                      // the cell's accesses that were atomic
        auto it = atoms->find(a_cell(c));
        if (it != atoms->end()) for (auto &r : it->second) if ((w || r.w) && (r.mask & mask) && r.id != id && (r.id >= vc.size() || r.clk > vc[r.id])) {
            g_host = 1; char b[128]; describe(a, b, sizeof b);
            violate("data-race", "%s and an atomic %s of the same memory by unordered workers (%zu bytes, %s)", w ? "a write" : "a read", r.w ? "write" : "read", n, in_heap((void *)a) ? b : in_stack((void *)a) ? "stack variable" : "global variable");
        }
    }
    uint64_t e = pack(mask, id, vc[id]);
    if (w) c->w = e;
    else if (ordered_or_mine(c->r0, id, vc)) c->r0 = e;
    else if (ordered_or_mine(c->r1, id, vc)) c->r1 = e;
    else c->r0 = e;
}
static void race_check(uintptr_t a, size_t n, bool w) {
    if (cfg.race == RACE_RANGES) {
        bool in = false; for (auto &r : ranges) if (a < r.second && a + n > r.first) in = true;
        if (!in) return;
    }
    Cell *base; uintptr_t lo;
    if (a - BASE < ARENA) {
        base = cells; lo = BASE;
        uintptr_t s = (uintptr_t)cur->stack;
        if (a - s < cur->stack_size && a < cur->low) cur->low = a;
        else if (a - BASE >= HEAP && !(a - s < cur->stack_size)) { // another fiber's stack
            Fiber *f = stack_owner(a); if (f && a < f->low) f->low = a;
        }
    } else if (a - dlo < dhi - dlo) { base = dcells; lo = dlo; }
    else return;
    uintptr_t o = a - lo, e = o + n;
    while (o < e) {
        uintptr_t g = o >> 2; uint32_t from = o & 3, cnt = (uint32_t)std::min<uintptr_t>(4 - from, e - o);
        race_cell(&base[g], ((1u << cnt) - 1) << from, w, a, n);
        o += cnt;
    }
}
void preempt();
static inline __attribute__((always_inline)) void access(uintptr_t a, size_t n, bool w) {
    if (g_host) return;
    g_acc++;
    size_t o = a - BASE;
    if (o < HEAP) {
        uint8_t s = shadow[o >> 3];
        if (__builtin_expect(s != 0 || (o & 7) + n > 8, 0)) if (!shadow_ok(a, n)) { g_host = 1; bad_access(a, n, w, nullptr); g_host = 0; }
    }
    if (g_parallel) {
        if (g_race) { g_host = 1; race_check(a, n, w); g_host = 0; }
        if (--g_budget <= 0) { g_host = 1; preempt(); g_host = 0; }
    }
}
void check_range(const void *p, size_t n, bool w, const char *what) {
    if (!n) return;
    uintptr_t a = (uintptr_t)p; int h = g_host; g_host = 1;
    if (a < 4096) violate("memory-error", "null pointer passed to %s", what);
    if (a - BASE < HEAP && !shadow_ok(a, n)) bad_access(a, n, w, what);
    if (g_race && g_parallel && cur) race_check(a, n, w);
    g_host = h;
}
void sync_acquire(uint64_t key) { auto it = sync_vc->find(key); if (it != sync_vc->end()) vc_join(cur->task->vc, it->second); }
void sync_release(uint64_t key) { vc_join((*sync_vc)[key], cur->task->vc); cur->task->vc[cur->task->id]++; }
} // namespace sim

using namespace sim;
// ---------------------------------------------------------------- compiler hooks
extern "C" {
#define A extern "C" __attribute__((used))
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (!g_host) check_range(p, n, false, "range"); }
void __tsan_write_range(void *p, size_t n) { if (!g_host) check_range(p, n, true, "range"); }
void __tsan_vptr_read(void *p) { access((uintptr_t)p, 8, false); }
void __tsan_vptr_update(void *p, void *) { access((uintptr_t)p, 8, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (!g_host) { check_range(s, n, false, "memcpy"); check_range(d, n, true, "memcpy"); g_acc += n / 8; } return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (!g_host) { check_range(s, n, false, "memmove"); check_range(d, n, true, "memmove"); g_acc += n / 8; } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (!g_host) { check_range(d, n, true, "memset"); g_acc += n / 8; } return memset(d, c, n); }
}
// Atomic accesses never race with each other, but with plain ones that are not ordered; what orders them is decided
// by the memory order they ask for: only acquire and release (or fences around relaxed accesses) carry a clock along.
static bool acquires(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_race(uintptr_t a, size_t n, bool w) {
    if (cfg.race == RACE_RANGES) { bool in = false; for (auto &r : ranges) if (a < r.second && a + n > r.first) in = true; if (!in) return; }
    Cell *c; uintptr_t lo;
    if (a - BASE < ARENA) { c = cells; lo = BASE; Fiber *f = a - BASE < HEAP ? nullptr : a - (uintptr_t)cur->stack < cur->stack_size ? cur : stack_owner(a); if (f && a < f->low) f->low = a; }
    else if (a - dlo < dhi - dlo) { c = dcells; lo = dlo; } else return;
    const VC &vc = cur->task->vc; uint32_t id = cur->task->id;
    for (uintptr_t o = a - lo, e = o + n; o < e;) {
        uint32_t from = o & 3, cnt = (uint32_t)std::min<uintptr_t>(4 - from, e - o), mask = ((1u << cnt) - 1) << from; Cell *k = &c[o >> 2];
        if (conflicts(k->w, mask, id, vc) || (w && (conflicts(k->r0, mask, id, vc) || conflicts(k->r1, mask, id, vc)))) {
            char b[128]; describe(a, b, sizeof b);
            violate("data-race", "an atomic %s and an earlier plain access of the same memory by unordered workers (%zu bytes, %s)", w ? "write" : "read", n, in_heap((void *)a) ? b : in_stack((void *)a) ? "stack variable" : "global variable");
        }
        auto &v = (*atoms)[a_cell(k)]; bool seen = false;
        for (auto &r : v) if (r.id == id && r.w == w && r.mask == mask) { r.clk = vc[id]; seen = true; }
        if (!seen) v.push_back({id, vc[id], mask, w});
        o += cnt;
    }
}
static void at_turn(volatile void *p, size_t n) {
    if (g_host) return;
    if ((uintptr_t)p - BASE < HEAP) { if (!shadow_ok((uintptr_t)p, n)) { g_host = 1; violate("memory-error", "atomic access outside live memory"); } }
    if (g_parallel) { Host h; sched_point(); }
}
static void at_pre(volatile void *p, size_t n, bool w, int mo) {
    if (g_host || !g_parallel) return;
    Host h; if (g_race) at_race((uintptr_t)p, n, w);
    auto it = sync_vc->find((uint64_t)p); if (it == sync_vc->end()) return;
    if (acquires(mo)) vc_join(cur->task->vc, it->second); else vc_join((*fences)[cur->os_tid].pending, it->second);
}
static void at_post(volatile void *p, int mo, bool rmw) {
    if (g_host || !g_parallel) return;
    Host h; VC &l = (*sync_vc)[(uint64_t)p]; if (!rmw) l.clear();     // a plain store ends what earlier ones released; a read-modify-write goes on with it
    if (releases(mo)) { vc_join(l, cur->task->vc); cur->task->vc[cur->task->id]++; } else { auto it = fences->find(cur->os_tid); if (it != fences->end()) vc_join(l, it->second.released); }
}
static void at_fence(int mo) {
    if (g_host || !g_parallel) return;
    Host h; sched_point(); Fences &f = (*fences)[cur->os_tid]; VC &vc = cur->task->vc;
    if (mo == __ATOMIC_SEQ_CST) { sync_acquire(1); sync_release(1); }
    if (acquires(mo)) vc_join(vc, f.pending);
    if (releases(mo)) { f.released = vc; vc[cur->task->id]++; }
}
namespace sim { void full_fence() { at_fence(__ATOMIC_SEQ_CST); } }
#define RMW(bits, T, name, expr) extern "C" T __tsan_atomic##bits##_##name(volatile T *p, T v, int mo) { at_turn(p, sizeof(T)); at_pre(p, sizeof(T), true, mo); T o = *p; *p = expr; at_post(p, mo, true); return o; }
#define ATOMIC(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T *p, int mo) { at_turn((volatile void *)p, sizeof(T)); at_pre((volatile void *)p, sizeof(T), false, mo); return *p; } \
extern "C" void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { at_turn(p, sizeof(T)); at_pre(p, sizeof(T), true, __ATOMIC_RELAXED); *p = v; at_post(p, mo, false); } \
RMW(bits, T, exchange, v) RMW(bits, T, fetch_add, o + v) RMW(bits, T, fetch_sub, o - v) RMW(bits, T, fetch_and, o & v) RMW(bits, T, fetch_or, o | v) RMW(bits, T, fetch_xor, o ^ v) RMW(bits, T, fetch_nand, ~(o & v)) \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fail) { at_turn(p, sizeof(T)); int ok = *p == *e; at_pre(p, sizeof(T), ok, ok ? mo : fail); if (ok) { *p = v; at_post(p, mo, true); } else *e = *p; return ok; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fail) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fail); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fail) { T o = e; __tsan_atomic##bits##_compare_exchange_strong(p, &o, v, mo, fail); return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo) { at_fence(mo); }
extern "C" void __tsan_atomic_signal_fence(int) {}

static uint32_t n_guards; static std::vector<uint8_t> *cov;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) {
    if (s == e || *s) return;
    for (; s < e; s++) *s = ++n_guards;
    if (!cov) cov = new std::vector<uint8_t>;
    cov->resize(n_guards + 1);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (g_host) return;
    (*cov)[*g] = 1;
    if (++g_steps > cfg.step_cap) { g_host = 1; violate("no-progress", "library code did not finish within %llu steps", (unsigned long long)cfg.step_cap); }
}
extern "C" uint64_t sim_cov_count(uint64_t *t) { uint64_t n = 0; if (cov) for (auto b : *cov) n += b; *t = n_guards; return n; }
extern "C" void __stack_chk_fail_guest() {}
extern "C" __attribute__((noreturn)) void __wrap___stack_chk_fail() { g_host = 1; violate("memory-error", "stack buffer overflow"); }

// ---------------------------------------------------------------- per-thread storage, guarded statics
struct Emutls { size_t size, align; void *idx; void *templ; };
static void *tls_block(void *key, size_t n, const void *init) {
    void *&p = (*tls)[{cur ? cur->os_tid : -1, key}];
    if (!p) { p = __real_calloc(1, n ? n : 1); if (init) memcpy(p, init, n); }
    return p;
}
extern "C" void *__emutls_get_address(Emutls *e) { Host h; return tls_block(e, e->size, e->templ); }
// std::call_once passes its function through these two
extern Emutls once_callable asm("__emutls_v._ZSt15__once_callable"); Emutls once_callable = {8, 8, nullptr, nullptr};
extern Emutls once_call asm("__emutls_v._ZSt11__once_call"); Emutls once_call = {8, 8, nullptr, nullptr};
extern "C" void __wrap___once_proxy() { (*(void (**)())__emutls_get_address(&once_call))(); }
extern "C" int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }   // simulated threads outlive every run
extern "C" void *__kmpc_threadprivate_cached(void *, int32_t, void *data, size_t n, void ***) { Host h; if (cur && cur->tid == 0 && !cur->team) return data; return cur && cur->os_tid == 0 ? data : tls_block(data, n, data); }
extern "C" int __cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *)g;
    if (b[0]) { if (!g_host && g_parallel) { Host h; sync_acquire((uint64_t)g); } return 0; }
    if (b[1]) { Host h; block_until([b] { return b[1] == 0; }); if (b[0]) { sync_acquire((uint64_t)g); return 0; } }
    b[1] = 1; return 1;
}
extern "C" void __cxa_guard_release(uint64_t *g) { uint8_t *b = (uint8_t *)g; b[0] = 1; b[1] = 0; if (!g_host && cur && g_parallel) { Host h; sync_release((uint64_t)g); } }
extern "C" void __cxa_guard_abort(uint64_t *g) { ((uint8_t *)g)[1] = 0; }

// ---------------------------------------------------------------- allocation
static bool alloc_fault(int &left, const char *kind) {
    if (left < 0) return false;
    if (left > 0) { left--; return false; }
    Host h; fault(kind); return true;
}
static void sched_maybe() { }
extern "C" void *__wrap_malloc(size_t n) {
    if (g_host) return __real_malloc(n);
    if (alloc_fault(cfg.malloc_left, "malloc_failed")) { errno = ENOMEM; return nullptr; }
    Host h; void *p = arena_alloc(n, 16); if (!p) { fault("malloc_too_large"); errno = ENOMEM; } return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
    if (g_host) return __real_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    if (alloc_fault(cfg.malloc_left, "malloc_failed")) { errno = ENOMEM; return nullptr; }
    Host h; void *p = arena_alloc(n, 16); if (!p) { fault("malloc_too_large"); errno = ENOMEM; return nullptr; } memset(p, 0, n); return p;
}
extern "C" void __wrap_free(void *p) {
    if (!p) return;
    if (in_heap(p)) { int h = g_host; g_host = 1; arena_free(p); g_host = h; return; }
    if (!g_host && (in_stack(p) || ((uintptr_t)p - dlo < dhi - dlo))) { g_host = 1; violate("memory-error", "free of a pointer that was not allocated"); }
    __real_free(p);
}
extern "C" void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!in_heap(p)) return __real_realloc(p, n);
    int h = g_host; g_host = 1; valid_free(p); size_t o = heap_size(p); g_host = h;
    void *q = __wrap_malloc(n); if (!q) return nullptr;
    memcpy(q, p, std::min(o, n)); __wrap_free(p); return q;
}
static void *aligned(size_t al, size_t n) { if (alloc_fault(cfg.malloc_left, "malloc_failed")) return nullptr; Host h; return arena_alloc(n, std::max<size_t>(al, 16)); }
extern "C" void *__real_aligned_alloc(size_t, size_t);
extern "C" void *__wrap_aligned_alloc(size_t al, size_t n) { return g_host ? __real_aligned_alloc(al, n) : aligned(al, n); }
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" int __wrap_posix_memalign(void **o, size_t al, size_t n) { if (g_host) return __real_posix_memalign(o, al, n); void *p = aligned(al, n); if (!p) return ENOMEM; *o = p; return 0; }
[[noreturn]] void sim_throw_bad_alloc();
static void *must(size_t n, size_t al) {
    if (g_host) { void *p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1); if (!p) { if (std::new_handler h = std::get_new_handler()) { h(); return must(n, al); } _exit(3); } return p; }
    void *p; { Host h; p = arena_alloc(n, al); if (!p) fault("new_failed"); }
    if (!p) sim_throw_bad_alloc();
    return p;
}
static void *may(size_t n, size_t al) {
    if (g_host) return __real_malloc(n ? n : 1);
    if (alloc_fault(cfg.nofail_left, "scratch_alloc_failed")) return nullptr;
    Host h; return arena_alloc(n, al);
}
void *operator new(size_t n) { return must(n, 16); }
void *operator new[](size_t n) { return must(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return must(n, std::max<size_t>(16, (size_t)a)); }
void *operator new[](size_t n, std::align_val_t a) { return must(n, std::max<size_t>(16, (size_t)a)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return may(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return may(n, 16); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }

// ---------------------------------------------------------------- randomness of the library
namespace sim { static uint64_t lib_rand; void rand_reset() { lib_rand = 88172645463325252ull; } }
static uint64_t lrand() { lib_rand ^= lib_rand << 13; lib_rand ^= lib_rand >> 7; lib_rand ^= lib_rand << 17; return lib_rand; }
extern "C" int __wrap_rand() { return (int)(lrand() >> 33); }
extern "C" void __wrap_srand(unsigned s) { lib_rand = 88172645463325252ull ^ ((uint64_t)s << 20); lrand(); }
extern "C" long __wrap_random() { return (long)(lrand() >> 33); }
extern "C" void __wrap_srandom(unsigned s) { __wrap_srand(s); }
extern "C" double __wrap_drand48() { return (lrand() >> 11) * (1.0 / 9007199254740992.0); }
