// Shared workload generators and oracles for the harnesses.
#pragma once
#include "../sim/sim.h"
#include "../guest/api.h"
#include <vector>
#include <cmath>
#include <algorithm>

struct Matrix {
    uint32_t rows = 1, cols = 1;
    std::vector<api::Ent> e;
};
// Integer-valued entries keep every sum exact in both float and double, so the
// oracle needs no tolerance and is independent of the order of additions.
uint32_t special_size(uint32_t max);
uint32_t rarely(uint32_t usual, uint32_t big, uint32_t den = 40);
void gen_shape(Matrix &m, uint32_t max_rows, uint32_t max_cols);
void gen_entries(Matrix &m, uint32_t max_nnz);
Matrix gen_matrix(uint32_t max_dim, uint32_t max_nnz);
void sort_row(std::vector<api::Ent> &e);
std::vector<double> mul(const Matrix &m, const std::vector<double> &x);
std::vector<uint32_t> gen_offsets(uint32_t dim, uint32_t max_block);
std::string shape_str(const Matrix &m);

struct Vec {                                  // a guest vector of float or double
    bool dbl; uint32_t n; void *p;
    Vec(bool d, uint32_t n_) : dbl(d), n(n_) { p = sim::galloc((size_t)n * (d ? 8 : 4)); }
    double get(uint32_t i) const { return dbl ? ((double *)p)[i] : ((float *)p)[i]; }
    void set(uint32_t i, double v) { if (dbl) ((double *)p)[i] = v; else ((float *)p)[i] = (float)v; }
    size_t bytes() const { return (size_t)n * (dbl ? 8 : 4); }
    void free_() { sim::gfree(p); p = nullptr; }
};
struct Built {                                // a matrix plus everything needed to describe it
    Matrix src; api::Spec spec; api::Mat *m = nullptr; bool dbl = true;
    std::vector<uint32_t> roff, coff;
};
bool in_rows(const api::Ent &a, const api::Ent &b);
Built make_built(int fmt, Matrix src, int build_workers, bool random_fill = true);
// draws one SpMV format in [lo,hi) with everything it needs
int pick_fmt(int lo, int hi);
Matrix gen_huge(int fmt);
Matrix gen_scaled(int fmt, uint32_t max_dim, uint32_t max_nnz);          // now and then gen_huge()
Matrix gen_for_format(int fmt, uint32_t max_dim, uint32_t max_nnz);
// multiplies and compares with the oracle; cls names the violation
void check_spmv(const Built &b, const char *cls, uint64_t xseed, int xmode, bool serial = false);
int any_workers();
void multiply_many(Built &b, const char *cls);   // one to three multiplications, each under its own schedule policy and team size
void history(Built &b);                          // now and then: earlier matrices, multiplied and perhaps released, before the one under test
inline api::Mat *build_any(const api::Spec &s) { return s.fmt < api::ROW_FMTS ? api::build_row(s) : api::build_blk(s); }
