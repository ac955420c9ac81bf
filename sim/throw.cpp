// The only simulator source compiled with exceptions: failures that library code may catch.
#include <new>
#include <filesystem>
#include "sim.h"
[[noreturn]] void sim_throw_bad_alloc() { sim::g_host = 0; throw std::bad_alloc(); }
[[noreturn]] void sim_throw_fs(const char *what, int code) { sim::g_host = 0; throw std::filesystem::filesystem_error(what, std::error_code(code, std::generic_category())); }
extern "C" int __cxa_guard_acquire(uint64_t *); extern "C" void __cxa_guard_release(uint64_t *); extern "C" void __cxa_guard_abort(uint64_t *);
extern "C" int __wrap_pthread_once(int *c, void (*f)()) {      // std::call_once; the flag's bytes serve as the guard of a static
    uint64_t *g = (uint64_t *)c;
    if (!__cxa_guard_acquire(g)) return 0;
    try { f(); } catch (...) { __cxa_guard_abort(g); throw; }
    __cxa_guard_release(g); return 0;
}
