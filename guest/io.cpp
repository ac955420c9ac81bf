#include "io.h"
#include <cstring>
#include <cstdlib>
#include <new>
#include "common.h"
#include "typedefs.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/cgbr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
using namespace api;
#ifndef INDEX_T
#define INDEX_T uint32_t
#define PRIMARY
#endif
typedef INDEX_T IT;
namespace {
template <class T> static uint64_t to_bits(T v) { uint64_t b = 0; memcpy(&b, &v, sizeof(T)); return b; }
template <class T> static T from_bits(uint64_t b) { T v; memcpy(&v, &b, sizeof(T)); return v; }
template <class M> static M *dirty(uint8_t fill) { M *p = (M *)api::adapter_alloc(sizeof(M)); memset((void *)p, fill, sizeof(M)); return p; }

template <class M, class T> static M *load(IoJob &j) {
    M *a = dirty<M>(j.fill); allocate(a, (IT)j.nnz); a->rows = j.rows; a->columns = j.cols;
    for (IT i = 0; i < j.nnz; i++) { a->set_row_index(i, j.rec[i].r); a->set_column_index(i, j.rec[i].c); a->set_value(i, from_bits<T>(j.rec[i].v)); }
    return a;
}
template <class T, class M> static void store(IoJob &j, M *a, IT rows, IT cols) {
    if (j.drop) { release(*a); free(a); return; }
    j.shape[0] = rows; j.shape[1] = cols; j.shape[2] = a->nnz; for (IT i = 0; i < a->nnz; i++) j.outside |= (IT)a->get_row_index(i) >= rows || (IT)a->get_column_index(i) >= cols;
    j.rows = rows; j.cols = cols; j.nnz = a->nnz; j.rec = (Bits *)api::adapter_alloc((size_t)a->nnz * sizeof(Bits) + 1);
    for (IT i = 0; i < a->nnz; i++) { j.rec[i].r = a->get_row_index(i); j.rec[i].c = a->get_column_index(i); j.rec[i].v = to_bits<T>(a->get_value(i)); j.rec[i].block = 0; }
}
template <class T, class M> struct W : Mat {
    M *m; IT nnz;
    void spmv(const void *x, void *y) const override { m->spmv((const T *)x, (T *)y); }
    uint64_t nonzeros() const override { return m->nonzeros(); }
    uint64_t nblocks() const override { return m->nnzblocks; }
    uint64_t shape_rows() const override { return m->rows; }
    uint64_t shape_cols() const override { return m->columns; }
};
template <class T, class M> struct WB : W<T, M> {
    int balanced() const override { return this->m->balanced ? 1 : 0; }
    void set_balanced(bool b) override { this->m->balanced = b; }
};
template <class T, class M> struct WG : WB<T, M> {
    bool stats(uint64_t *b, uint64_t *n) const override { for (int i = 0; i < 6; i++) { b[i] = this->m->type_block_count[i]; n[i] = this->m->type_nnz_count[i]; } return true; }
    bool spmv_serial(const void *x, void *y) const override { this->m->spmv_serial((const T *)x, (T *)y); return true; }
};
static IT *offs(const uint32_t *o, uint32_t n) { IT *p = (IT *)api::adapter_alloc((n + 1) * sizeof(IT)); for (uint32_t i = 0; i <= n; i++) p[i] = o[i]; return p; }
template <class T, class M, class Wr> static void blk(IoJob &j, M *m) {
    j.ret = read_bin_blocked(m, j.f1, offs(j.roff, j.nbr), (IT)j.nbr, offs(j.coff, j.nbc), (IT)j.nbc);
    if (j.ret >= 0 && j.drop) { release(*m); free(m); return; }
    if (j.ret >= 0) { Wr *w = new (api::adapter_alloc(sizeof(Wr))) Wr; w->m = m; j.mat = w; j.shape[0] = m->rows; j.shape[1] = m->columns; j.shape[2] = m->nnz; j.rows = m->rows; j.cols = m->columns; j.nnz = m->nnz; j.nblocks = m->nnzblocks; }
}
template <class T> static void go(IoJob &j) {
    typedef Coo2<T, IT> C2; typedef Coo3<T, IT> C3; typedef Coo<T, IT, IT> C1;
    switch (j.fn) {
    case W_BIN_C2: { C2 *a = load<C2, T>(j); j.ret = write_bin_COO(*a, j.f1); break; }
    case W_BIN_C3: { C3 *a = load<C3, T>(j); j.ret = write_bin_COO(*a, j.f1); break; }
    case W_MM_C2: { C2 *a = load<C2, T>(j); j.ret = write_mm_COO(a, j.f1); break; }
    case W_MM_C3: { C3 *a = load<C3, T>(j); j.ret = write_mm_COO(a, j.f1); break; }
    case W_3_C2: { C2 *a = load<C2, T>(j); j.ret = write_bin_COO(a, j.f1, j.f2, j.f3); break; }
    case W_3_C3: { C3 *a = load<C3, T>(j); j.ret = write_bin_COO(a, j.f1, j.f2, j.f3); break; }
    case W_ARR_IDX: { IT *p = (IT *)api::adapter_alloc(j.nnz * sizeof(IT)); for (IT i = 0; i < j.nnz; i++) p[i] = j.rec[i].r; j.ret = write_bin_array(j.f1, p, (size_t)j.nnz); break; }
    case W_ARR_VAL: { T *p = (T *)api::adapter_alloc(j.nnz * sizeof(T)); for (IT i = 0; i < j.nnz; i++) p[i] = from_bits<T>(j.rec[i].v); j.ret = write_bin_array(j.f1, p, (size_t)j.nnz); break; }
    case W_BLK: {
        C3 *a = load<C3, T>(j); IT *ro = offs(j.roff, j.nbr), *co = offs(j.coff, j.nbc);
        calculate_block_id(a->elements, a->nnz, ro, (IT)j.nbr, co, (IT)j.nbc); sort_elements_blocks(a->elements, a->nnz);
        a->blockrows = j.nbr; a->blockcols = j.nbc; a->nnzblocks = count_blocks(a->elements, a->nnz); j.nblocks = a->nnzblocks;
        for (IT i = 0; i < j.nnz; i++) { j.rec[i].r = a->elements[i].row; j.rec[i].c = a->elements[i].col; j.rec[i].v = to_bits<T>(a->elements[i].val); j.rec[i].block = a->elements[i].block; }
        j.ret = write_bin_blocked(*a, j.f1); break; }
    case R_BIN_C2: { C2 *a = dirty<C2>(j.fill); j.ret = read_bin_COO(a, j.f1); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_BIN_C3: { C3 *a = dirty<C3>(j.fill); j.ret = read_bin_COO(a, j.f1); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_ANY_C2: { C2 *a = dirty<C2>(j.fill); j.ret = read_COO(a, j.f1); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_ANY_C3: { C3 *a = dirty<C3>(j.fill); j.ret = read_COO(a, j.f1); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_MM_C2: { C2 *a = dirty<C2>(j.fill); j.ret = read_mm_COO(a, j.f1); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_MM_C3: { C3 *a = dirty<C3>(j.fill); j.ret = read_mm_COO(a, j.f1); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_3_C2: { C2 *a = dirty<C2>(j.fill); j.ret = read_bin_COO(a, j.f1, j.f2, j.f3); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_3_C3: { C3 *a = dirty<C3>(j.fill); j.ret = read_bin_COO(a, j.f1, j.f2, j.f3); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_3_COO1: { C1 *a = dirty<C1>(j.fill); j.ret = read_bin_COO(a, j.f1, j.f2, j.f3); if (j.ret >= 0) store<T>(j, a, a->rows, a->columns); break; }
    case R_CSR: {
        typedef Csr<T, IT> M; M *a = dirty<M>(j.fill); j.ret = read_bin_CSR(a, j.f1);
        if (j.ret >= 0 && j.drop) { release(*a); free(a); }
        else if (j.ret >= 0) {
            IT n = a->nonzeros(); j.shape[0] = a->rows; j.shape[1] = a->columns; j.shape[2] = n; j.rows = a->rows; j.cols = a->columns; j.nnz = n; j.rec = (Bits *)api::adapter_alloc((size_t)n * sizeof(Bits) + 1);
            uint64_t t = 0; for (IT r = 0; r < a->rows; r++) { t += a->row_ptr[r + 1] - a->row_ptr[r]; for (IT k = a->row_ptr[r]; k < a->row_ptr[r + 1]; k++) { j.rec[k].r = r; j.rec[k].c = a->col_ind[k]; j.rec[k].v = to_bits<T>(a->val[k]); j.rec[k].block = 0; } }
            j.ptr_total = t;
        }
        break; }
    case R_ARR_IDX: { IT *p; size_t n; j.ret = read_bin_array(j.f1, &p, &n); if (j.ret >= 0) { j.nnz = n; j.rec = (Bits *)api::adapter_alloc(n * sizeof(Bits) + 1); for (size_t i = 0; i < n; i++) { j.rec[i].r = p[i]; j.rec[i].c = 0; j.rec[i].v = 0; } } break; }
    case R_ARR_VAL: { T *p; size_t n; j.ret = read_bin_array(j.f1, &p, &n); if (j.ret >= 0) { j.nnz = n; j.rec = (Bits *)api::adapter_alloc(n * sizeof(Bits) + 1); for (size_t i = 0; i < n; i++) { j.rec[i].v = to_bits<T>(p[i]); j.rec[i].r = j.rec[i].c = 0; } } break; }
    case R_BLK_CSBR: { typedef Csbr<T, IT> M; blk<T, M, WB<T, M>>(j, new (dirty<M>(j.fill)) M()); break; }
    case R_BLK_CSBR2: { typedef Csbr2<T, IT> M; blk<T, M, W<T, M>>(j, dirty<M>(j.fill)); break; }
    case R_BLK_CGBR16: { typedef Cgbr<T, IT, typename std::conditional<sizeof(IT) == 8, uint32_t, uint16_t>::type> M; blk<T, M, WG<T, M>>(j, dirty<M>(j.fill)); break; }
    case R_BLK_CGBR8: { typedef Cgbr<T, IT, uint8_t> M; blk<T, M, WG<T, M>>(j, dirty<M>(j.fill)); break; }
    }
}
}
#ifdef PRIMARY
void api::run_io(IoJob &j) { if (j.index) run_io_u64(j); else if (j.dbl) go<double>(j); else go<float>(j); }
uint64_t api::do_file_size(const char *f) { return get_file_size(f); }
const char *const api::io_name[IO_FNS] = {"write_bin_COO(Coo2)", "write_bin_COO(Coo3)", "write_mm_COO(Coo2)", "write_mm_COO(Coo3)", "write_bin_COO(Coo2, 3 files)", "write_bin_COO(Coo3, 3 files)", "write_bin_array(index)", "write_bin_array(value)", "write_bin_blocked",
    "read_bin_COO(Coo2)", "read_bin_COO(Coo3)", "read_COO(Coo2)", "read_COO(Coo3)", "read_bin_CSR", "read_mm_COO(Coo2)", "read_mm_COO(Coo3)", "read_bin_COO(Coo, 3 files)", "read_bin_COO(Coo2, 3 files)", "read_bin_COO(Coo3, 3 files)", "read_bin_array(index)", "read_bin_array(value)",
    "read_bin_blocked(Csbr)", "read_bin_blocked(Csbr2)", "read_bin_blocked(Cgbr,u16)", "read_bin_blocked(Cgbr,u8)"};
#else
void api::run_io_u64(IoJob &j) { if (j.dbl) go<double>(j); else go<float>(j); }
#endif
