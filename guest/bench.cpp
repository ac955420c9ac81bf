#include "bench.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include "common.h"
#include "test/bench.h"
using namespace api;
static void (*g_laps)(const char *, unsigned long, unsigned long, const double *);
static void hand_over(const char *m, unsigned long nnz, unsigned long n, double *t) { g_laps(m, nnz, n, t); }
template <class T, class IT> struct CountedM {
    IT rows, columns; Counted c;
    void spmv(const T *x, T *y) const { c.before(); c.m->spmv(x, y); c.after(); }
    uint64_t nonzeros() const { return c.nnz; }
};
template <class T> static void go(const Counted &c, int report, unsigned it, const char *method, double *avg) {
    CountedM<T, uint32_t> a; a.rows = c.rows; a.columns = c.cols; a.c = c;
    switch (report) {
    case R_CORE: benchmark_spmv_core<CountedM<T, uint32_t>, T>(a, it, method, hand_over); break;
    case R_VERBOSE: benchmark_spmv(a, it, method); break;
    case R_CSV: benchmark_spmv_csv(a, it, method); break;
    case R_AVG: { T *x, *y; vector_random(&x, a.columns); vector_zero(&y, a.rows); double avg_ = 0; BENCH_AVG(a.spmv(x, y), it, avg_); *avg = avg_; vector_release(x); vector_release(y); break; }
    }
}
void api::bench(const Counted &c, bool dbl, int report, unsigned it, const char *method, void (*laps)(const char *, unsigned long, unsigned long, const double *), double *avg) {
    g_laps = laps; if (dbl) go<double>(c, report, it, method, avg); else go<float>(c, report, it, method, avg);
}
void api::t_tick() { tick(); }
double api::t_tock() { return tock(); }
void api::report_direct(bool csv, const char *m, unsigned long nnz, unsigned long iter, double *t) { if (csv) print_timing_csv(m, nnz, iter, t); else print_timing_verbose(m, nnz, iter, t); }
double api::t_stat(int what, double *t, uint32_t n) { return what == 0 ? mean(t, n) : what == 1 ? median(t, n) : standard_deviation(t, n); }
