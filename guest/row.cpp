#include "api.h"
#include <cstring>
#include <new>
#include <algorithm>
#include "common.h"
#include "generic/base.h"
#include "utils.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/dense.h"
using namespace api;
#ifndef INDEX_T
#define INDEX_T uint32_t
#define PRIMARY
#endif
typedef INDEX_T IT;
namespace {
template <class T> static Coo2<T, IT> *coo2(const Spec &s) { if (s.src) return (Coo2<T, IT> *)s.src; auto *B = (Coo2<T, IT> *)malloc(sizeof(Coo2<T, IT>)); allocate(B, (IT)s.nnz); B->rows = s.rows; B->columns = s.cols; for (IT i = 0; i < (IT)s.nnz; i++) set_point(B, i, (IT)s.ent[i].r, (IT)s.ent[i].c, (T)s.ent[i].v); return B; }
template <class T> static Coo3<T, IT> *coo3(const Spec &s) { if (s.src) return (Coo3<T, IT> *)s.src; auto *B = (Coo3<T, IT> *)malloc(sizeof(Coo3<T, IT>)); allocate(B, (IT)s.nnz); B->rows = s.rows; B->columns = s.cols; for (IT i = 0; i < (IT)s.nnz; i++) { set_point(B, i, (IT)s.ent[i].r, (IT)s.ent[i].c, (T)s.ent[i].v); B->elements[i].block = 0; } return B; }

// W: the library's matrix object lives in dirty memory, as on a caller's stack
template <class T, class M> struct Simple : Mat {
    M *m;
    void spmv(const void *x, void *y) const override { m->spmv((const T *)x, (T *)y); }
    uint64_t nonzeros() const override { return m->nonzeros(); }
};
template <class T, class M> struct Heap : Simple<T, M> { void release() override { delete this->m; } };
template <class T, class M> struct Shaped : Simple<T, M> {
    uint64_t shape_rows() const override { return this->m->rows; }
    uint64_t shape_cols() const override { return this->m->columns; }
};
template <class T, class M> struct WithSerial : Shaped<T, M> {
    bool spmv_serial(const void *x, void *y) const override { this->m->spmv_serial((const T *)x, (T *)y); return true; }
    void release() override { ::release(*this->m); free(this->m); }
    void *keep() override { ::release(*this->m); return this->m; }
};
template <class T, class M> struct Rel : Shaped<T, M> { void release() override { ::release(*this->m); free(this->m); } void *keep() override { ::release(*this->m); return this->m; } };
template <class T> struct Cr : Mat {
    CompRowCsr<T, IT> *m;
    void spmv(const void *x, void *y) const override { ::spmv(m, (const T *)x, (T *)y); }
    bool spmv_serial(const void *x, void *y) const override { ::spmv_serial(m, (const T *)x, (T *)y); return true; }
    uint64_t nonzeros() const override { return m->nonzeros(); }
    void release() override { ::release(*m); free(m); }
    void *keep() override { ::release(*m); return m; }
};
template <class T> struct Dn : Mat {
    BlockDense<T, IT> *m; uint64_t n;
    void spmv(const void *x, void *y) const override { m->spmv((const T *)x, (T *)y); }
    bool spmv_serial(const void *x, void *y) const override { m->spmv_serial((const T *)x, (T *)y); return true; }
    uint64_t nonzeros() const override { return n; }
    void release() override { ::release(*m); free(m); }
    void *keep() override { ::release(*m); return m; }
};
template <class T, class M> struct CooM : Shaped<T, M> {
    bool entry(uint32_t i, Ent *e) const override { e->r = this->m->get_row_index(i); e->c = this->m->get_column_index(i); e->v = this->m->get_value(i); return true; }
    void release() override { ::release(*this->m); free(this->m); }
    void *keep() override { ::release(*this->m); return this->m; }
};
template <class M> static M *dirty(const Spec &s) { if (s.object) return (M *)s.object; void *p = malloc(sizeof(M)); memset(p, s.fill, sizeof(M)); return (M *)p; }
template <class W, class M> static W *wrap(M *m) { W *w = new W; w->m = m; return w; }

template <class T> static Mat *mk(const Spec &s) {
    switch (s.fmt) {
    case CSR_C2: { auto *m = dirty<Csr<T, IT>>(s); auto *b = coo2<T>(s); if (s.sorted) Coo_to_Csr(m, b->triplets, b->rows, b->columns, b->nnz, true, true); else Coo_to_Csr(m, b); return wrap<WithSerial<T, Csr<T, IT>>>(m); }
    case CSR_C3: { auto *m = dirty<Csr<T, IT>>(s); auto *b = coo3<T>(s); if (s.sorted) Coo_to_Csr(m, b->elements, b->rows, b->columns, b->nnz, true, true); else Coo_to_Csr(m, b); return wrap<WithSerial<T, Csr<T, IT>>>(m); }
    case CSR2_C2: { auto *m = dirty<Csr2<T, IT>>(s); auto *b = coo2<T>(s); if (s.sorted) Coo_to_Csr(m, b->triplets, b->rows, b->columns, b->nnz, true, true); else Coo_to_Csr(m, b); return wrap<WithSerial<T, Csr2<T, IT>>>(m); }
    case CSR2_C3: { auto *m = dirty<Csr2<T, IT>>(s); auto *b = coo3<T>(s); if ((s.nnz & 1) && !s.sorted) Coo_to_Csr(m, b); else Coo_to_Csr(m, b->elements, b->rows, b->columns, b->nnz, s.sorted, true); return wrap<WithSerial<T, Csr2<T, IT>>>(m); }
    case CSWR16_C2: { auto *m = dirty<Cswr<T, IT, uint16_t>>(s); auto *b = coo2<T>(s); if (s.width == 32) Coo_to_Cswr(m, b); else Coo_to_Cswr(m, b, (IT)s.width); return wrap<Rel<T, Cswr<T, IT, uint16_t>>>(m); }
    case CSWR8_C3: { auto *m = dirty<Cswr<T, IT, uint8_t>>(s); auto *b = coo3<T>(s); Coo_to_Cswr(m, b, (IT)s.width); return wrap<Rel<T, Cswr<T, IT, uint8_t>>>(m); }
    case CRCSR_C2: { auto *m = dirty<CompRowCsr<T, IT>>(s); auto *b = coo2<T>(s); Coo_to_CrCsr(m, b); return wrap<Cr<T>>(m); }
    case CRCSR_C3: { auto *m = dirty<CompRowCsr<T, IT>>(s); auto *b = coo3<T>(s); Coo_to_CrCsr(m, b); return wrap<Cr<T>>(m); }
    case COO1_M: { auto *b = coo3<T>(s); auto *m = new Coo<T, IT, IT>(b->elements, b->nnz); auto *w = wrap<Heap<T, Coo<T, IT, IT>>>(m); return w; }
    case COO1_C: { auto *b = coo2<T>(s); auto *m = s.object ? (Coo<T, IT, uint16_t> *)s.object : new (malloc(sizeof(Coo<T, IT, uint16_t>))) Coo<T, IT, uint16_t>(); Coo_to_Coo(m, b); return wrap<CooM<T, Coo<T, IT, uint16_t>>>(m); }
    case COO2: { auto *b = coo3<T>(s); auto *m = dirty<Coo2<T, IT>>(s); Coo_to_Coo(m, b); return wrap<CooM<T, Coo2<T, IT>>>(m); }
    case COO3: { auto *b = coo2<T>(s); auto *m = dirty<Coo3<T, IT>>(s); Coo_to_Coo(m, b); return wrap<CooM<T, Coo3<T, IT>>>(m); }
    case DENSE_C2: { auto *m = dirty<BlockDense<T, IT>>(s); auto *b = coo2<T>(s); Coo_to_Dense(m, b); auto *w = wrap<Dn<T>>(m); w->n = s.nnz; return w; }
    case DENSE_C3: { auto *m = dirty<BlockDense<T, IT>>(s); auto *b = coo3<T>(s); Coo_to_Dense(m, b); auto *w = wrap<Dn<T>>(m); w->n = s.nnz; return w; }
    case DENSE_SER: { auto *b = coo3<T>(s); return wrap<Heap<T, DenseSerial<T, IT>>>(new DenseSerial<T, IT>(b->elements, (IT)s.rows, (IT)s.cols, (IT)s.nnz)); }
    case DENSE_PAR: { auto *b = coo3<T>(s); return wrap<Heap<T, DenseSerial<T, IT>>>((DenseSerial<T, IT> *)new DenseParallel<T, IT>(b->elements, (IT)s.rows, (IT)s.cols, (IT)s.nnz)); }
    }
    return nullptr;
}
}
#ifdef PRIMARY
void *api::make_source(const Spec &s, int kind) { if (kind == 2) return s.dbl ? (void *)coo2<double>(s) : (void *)coo2<float>(s); return s.dbl ? (void *)coo3<double>(s) : (void *)coo3<float>(s); }
template <class M> static void entry_of(M *m, uint32_t i, Ent *e) { e->r = m->get_row_index(i); e->c = m->get_column_index(i); e->v = m->get_value(i); }
template <class M> static void shape_of(M *m, uint32_t *r, uint32_t *c, uint32_t *n) { *r = m->rows; *c = m->columns; *n = m->nonzeros(); }
template <class M> static void scramble(M *m) { for (IT i = 0; i < m->nnz; i++) set_point(m, i, (IT)0xDEADBEEF, (IT)0xDEADBEEF, decltype(m->get_value(0))(-77777)); m->rows = m->columns = 0; }
#define EACH(X) do { if (kind == 2) { if (dbl) { auto *m = (Coo2<double, IT> *)p; X; } else { auto *m = (Coo2<float, IT> *)p; X; } } else { if (dbl) { auto *m = (Coo3<double, IT> *)p; X; } else { auto *m = (Coo3<float, IT> *)p; X; } } } while (0)
void api::source_entry(void *p, int kind, bool dbl, uint32_t i, Ent *e) { EACH(entry_of(m, i, e)); }
void api::source_shape(void *p, int kind, bool dbl, uint32_t *r, uint32_t *c, uint32_t *n) { EACH(shape_of(m, r, c, n)); }
void api::source_spmv(void *p, int kind, bool dbl, const void *x, void *y) { EACH(m->spmv((decltype(m->get_value(0)) const *)x, (decltype(m->get_value(0)) *)y)); }
void api::source_scramble(void *p, int kind, bool dbl) { EACH(scramble(m)); }
void api::source_release(void *p, int kind, bool dbl) { EACH(::release(*m)); free(p); }
Mat *api::build_row(const Spec &s) { if (s.index == 1) return build_row_u64(s); return s.dbl ? mk<double>(s) : mk<float>(s); }
#else
Mat *api::BUILD_ROW(const Spec &s) { return s.dbl ? mk<double>(s) : mk<float>(s); }
#endif
