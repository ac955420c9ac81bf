// Timing entry points of the library, for the host side.
#pragma once
#include "api.h"
namespace api {
struct Counted {                     // one multiplication, reported to the harness before and after
    void (*before)(); void (*after)();
    const Mat *m; uint32_t rows, cols; uint64_t nnz;
};
enum Report { R_CORE, R_VERBOSE, R_CSV, R_AVG };
void bench(const Counted &c, bool dbl, int report, unsigned iterations, const char *method, void (*laps)(const char *, unsigned long, unsigned long, const double *), double *avg);
void t_tick(); double t_tock();
void report_direct(bool csv, const char *method, unsigned long nnz, unsigned long iter, double *t);
double t_stat(int what, double *t, uint32_t n);      // 0 mean, 1 median, 2 standard deviation
}
