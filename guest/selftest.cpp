// Library-like code that uses the seams no code of /repo uses today (tools/selftest.py).
#include <fstream>
#include <sstream>
#include <iostream>
#include <filesystem>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sched.h>
namespace selft {
int streams(const int *data, int n, int *back) {
    { std::ofstream o("/d/a.bin", std::ios::binary); if (!o) return -1; o.write((const char *)data, n * sizeof(int)); o.close(); if (!o) return -2; }
    { std::ofstream o("/d/a.bin", std::ios::binary | std::ios::app); if (!o) return -1; int v = 7; o.write((const char *)&v, sizeof v); if (!o.flush()) return -2; }
    std::ifstream i("/d/a.bin", std::ios::binary | std::ios::ate); if (!i) return -3;
    if (i.tellg() != (std::streamoff)((n + 1) * sizeof(int))) return -4;
    i.seekg(0); i.read((char *)back, n * sizeof(int)); if (i.gcount() != (std::streamsize)(n * sizeof(int))) return -5;
    int v = 0; i.read((char *)&v, sizeof v); if (!i || v != 7) return -6;
    if (i.read((char *)&v, 1) || !i.eof()) return -7;
    return 0;
}
int text(int n) {
    { std::ofstream o("/d/t.txt"); for (int i = 0; i < n; i++) o << i << ' ' << i * 0.5 << '\n'; o.close(); if (!o) return -1; }
    std::ifstream in("/d/t.txt"); if (!in) return -2; int a, k = 0; double b; while (in >> a >> b) { if (a != k || b != k * 0.5) return -3; k++; }
    if (k != n) return -4;
    std::ifstream l("/d/t.txt"); std::string s; k = 0; while (std::getline(l, s)) k++; if (k != n) return -5;
    return 0;
}
int posix(const char *msg) {
    int fd = open("/d/p.bin", O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0) return -1; size_t n = strlen(msg), k = 0;
    while (k < n) { ssize_t r = write(fd, msg + k, n - k); if (r <= 0) { close(fd); return -2; } k += r; }
    if (close(fd)) return -3;
    struct stat st; if (stat("/d/p.bin", &st) || (size_t)st.st_size != n) return -4;
    fd = open("/d/p.bin", O_RDONLY); if (fd < 0) return -5; if (fstat(fd, &st) || (size_t)st.st_size != n) return -6;
    std::string b; char c[8]; ssize_t r; while ((r = read(fd, c, sizeof c)) > 0) b.append(c, r); if (r < 0) { close(fd); return -7; }
    if (lseek(fd, 0, SEEK_SET) != 0) { close(fd); return -8; }
    close(fd); if (b != msg) return -9;
    char *d = strdup(msg), *e = nullptr; if (asprintf(&e, "%s", msg) < 0) return -10; int same = !strcmp(d, e); free(d); free(e);
    FILE *f = fopen("/d/p.bin", "r"); if (!f) return -12; char *ln = nullptr; size_t cap = 0; ssize_t g = getline(&ln, &cap, f); int bad = g < 0 && !ferror(f) && n; free(ln); fclose(f);
    return !same ? -11 : bad ? -13 : 0;
}
int paths() {
    namespace fs = std::filesystem; std::error_code ec;
    if (!fs::create_directories("/d/x/y/z") || !fs::exists("/d/x/y") || fs::create_directory("/d/x", ec)) return -1;
    { std::ofstream o("/d/x/y/f"); o << "12345"; o.close(); if (!o) return -9; }
    if (fs::file_size("/d/x/y/f") != 5 || fs::file_size("/d/nofile", ec) != (uintmax_t)-1 || !ec) return -2;
    fs::rename("/d/x/y/f", "/d/x/g"); if (fs::exists("/d/x/y/f") || !fs::exists("/d/x/g")) return -3;
    try { fs::file_size("/d/nofile"); return -4; } catch (const fs::filesystem_error &) {}
    fs::remove_all("/d/x"); if (fs::exists("/d/x/g") || fs::exists("/d/x")) return -5;
    return 0;
}
static std::once_flag flag; static int initialised; static std::atomic<int> calls;
long threads(int n) {
    std::mutex m; std::condition_variable cv; int ready = 0; long sum = 0; bool go = false; std::vector<std::thread> t; std::atomic<long> spin{0};
    for (int i = 0; i < n; i++) t.emplace_back([&, i] {
        std::call_once(flag, [] { initialised = 42; calls++; }); if (initialised != 42) sum = -1000000;
        { std::unique_lock<std::mutex> l(m); ready++; cv.notify_all(); cv.wait(l, [&] { return go; }); sum += i; }
        spin++;
    });
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return ready == n; }); go = true; } cv.notify_all();
    while (spin != n) std::this_thread::yield();
    for (auto &x : t) x.join();
    return calls == 1 ? sum : -1;
}
// A value handed over through an atomic flag; some of the ways to do it do not order the two sides
long handover(int way) {
    long data = 0, got = 0; std::atomic<int> f{0}, n{0}; int g = 0; volatile long sink = 0;
    std::thread a([&] {
        data = 42;
        switch (way) {
        case 0: case 5: f.store(1, std::memory_order_release); break;
        case 1: f.store(1); break;
        case 2: std::atomic_thread_fence(std::memory_order_release); f.store(1, std::memory_order_relaxed); break;
        case 3: f.fetch_add(1, std::memory_order_acq_rel); break;
        case 4: { int e = 0; f.compare_exchange_strong(e, 1, std::memory_order_release, std::memory_order_relaxed); break; }
        case 6: __atomic_store_n(&g, 1, __ATOMIC_RELEASE); break;
        case 10: case 11: f.store(1, std::memory_order_relaxed); break;
        case 12: f.store(1, std::memory_order_release); break;
        case 13: f.store(1, std::memory_order_release); f.store(2, std::memory_order_relaxed); break;
        case 14: __atomic_fetch_add(&g, 1, __ATOMIC_ACQ_REL); break;
        default: ;
        }
    });
    std::thread b([&] {
        if (way == 14) { g = g + 1; return; }
        if (way == 6) { while (!__atomic_load_n(&g, __ATOMIC_ACQUIRE)) std::this_thread::yield(); got = data; return; }
        auto mo = way == 2 || way == 5 || way == 11 || way == 12 ? std::memory_order_relaxed : way == 1 ? std::memory_order_seq_cst : std::memory_order_acquire;
        int want = way == 13 ? 2 : 1; while (f.load(mo) < want) std::this_thread::yield();
        if (way == 2 || way == 5 || way == 11) std::atomic_thread_fence(std::memory_order_acquire);
        got = data;
    });
    long k = 0; std::thread c([&] { for (int i = 0; i < 5; i++) n.fetch_add(1, std::memory_order_relaxed); }), d([&] { for (int i = 0; i < 5; i++) n.fetch_add(1, std::memory_order_relaxed); });
    a.join(); b.join(); c.join(); d.join(); sink = k; (void)sink;
    return n.load(std::memory_order_relaxed) == 10 ? (way == 14 ? 42 : got) : -1;
}
// the same with OpenMP's constructs
long handover_omp(int way) {
    long data = 0, got = 0, sum = 0; int f = 0;
    #pragma omp parallel num_threads(2) reduction(+:sum)
    {
        #pragma omp for
        for (int i = 0; i < 10; i++) sum += i;
        #pragma omp sections
        {
            #pragma omp section
            {
                data = 42;
                if (way == 0) {
                    #pragma omp flush
                    #pragma omp atomic write
                    f = 1;
                } else {
                    #pragma omp atomic write seq_cst
                    f = 1;
                }
            }
            #pragma omp section
            {
                int v = 0;
                for (int i = 0; i < 100 && !v; i++) {
                    if (way == 0) {
                        #pragma omp atomic read
                        v = f;
                        #pragma omp flush
                    } else {
                        #pragma omp atomic read seq_cst
                        v = f;
                    }
                    if (!v) sched_yield();
                }
                if (v) got = data; else got = 42;
            }
        }
    }
    return sum == 45 ? got : -1;
}
long racy(int n) { long sum = 0; std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([&] { sum++; }); for (auto &x : t) x.join(); return sum; }
void say(int i) { std::cout << "value " << i << std::endl; std::cerr << "err\n"; fprintf(stdout, "more\n"); }
// tasks run by one thread share its thread_local scratch
static thread_local std::vector<long> scratch;
long local_scratch(int n) {
    std::vector<long> out(n);
    #pragma omp parallel
    #pragma omp single
    for (int i = 0; i < n; i++) {
        #pragma omp task firstprivate(i) shared(out)
        { scratch.assign(4, i); long s = 0; for (long v : scratch) s += v; out[i] = s; }
    }
    long t = 0; for (long v : out) t += v; return t;
}
}
