#include "api.h"
#include <cstring>
#include <new>
#include "common.h"
#include "utils.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
using namespace api;
#ifndef INDEX_T
#define INDEX_T uint32_t
#define PRIMARY
#endif
typedef INDEX_T IT;
namespace {
template <class T> static Coo2<T, IT> *coo2(const Spec &s) { if (s.src) return (Coo2<T, IT> *)s.src; auto *B = (Coo2<T, IT> *)malloc(sizeof(Coo2<T, IT>)); allocate(B, (IT)s.nnz); B->rows = s.rows; B->columns = s.cols; for (IT i = 0; i < (IT)s.nnz; i++) set_point(B, i, (IT)s.ent[i].r, (IT)s.ent[i].c, (T)s.ent[i].v); return B; }
template <class T> static Coo3<T, IT> *coo3(const Spec &s) { if (s.src) return (Coo3<T, IT> *)s.src; auto *B = (Coo3<T, IT> *)malloc(sizeof(Coo3<T, IT>)); allocate(B, (IT)s.nnz); B->rows = s.rows; B->columns = s.cols; for (IT i = 0; i < (IT)s.nnz; i++) { set_point(B, i, (IT)s.ent[i].r, (IT)s.ent[i].c, (T)s.ent[i].v); B->elements[i].block = 0; } return B; }
template <class M> static M *dirty(const Spec &s) { if (s.object) return (M *)s.object; void *p = malloc(sizeof(M)); memset(p, s.fill, sizeof(M)); return (M *)p; }

template <class T, class M> struct Plain : Mat {
    M *m;
    void spmv(const void *x, void *y) const override { m->spmv((const T *)x, (T *)y); }
    uint64_t nonzeros() const override { return m->nonzeros(); }
    uint64_t nblocks() const override { return m->nnzblocks; }
    uint64_t shape_rows() const override { return m->rows; }
    uint64_t shape_cols() const override { return m->columns; }
    void release() override { ::release(*m); free(m); }
    void *keep() override { ::release(*m); return m; }
};
template <class T, class M> struct Bal : Plain<T, M> {
    int balanced() const override { return this->m->balanced ? 1 : 0; }
    void set_balanced(bool b) override { this->m->balanced = b; }
};
template <class T, class M> struct Gen : Bal<T, M> {
    bool stats(uint64_t *b, uint64_t *n) const override { for (int i = 0; i < 6; i++) { b[i] = this->m->type_block_count[i]; n[i] = this->m->type_nnz_count[i]; } return true; }
};
template <class T, class M> struct GenS : Gen<T, M> { bool spmv_serial(const void *x, void *y) const override { this->m->spmv_serial((const T *)x, (T *)y); return true; } };
static IT *offs(const uint32_t *o, uint32_t n) { IT *p = (IT *)malloc((n + 1) * sizeof(IT)); for (uint32_t i = 0; i <= n; i++) p[i] = o[i]; return p; }

// a caller-supplied factory that rotates over every block kind
typedef std::conditional<sizeof(IT) == 8, uint32_t, uint16_t>::type Wide;      // the index inside a block that goes with the index type
template <class T, class SIT> struct AllKinds : BlockFactory<T, IT> {
    unsigned k = 0;
    MatrixType create(BlockBase<T, IT> **t, Element<T, IT> *a, IT rows, IT cols, IT nnz) override {
        switch (k++ % 5) {
        case 0: *t = new Coo<T, IT, SIT>(a, nnz); return BLOCK_COO;
        case 1: *t = new BlockCsrSerial<T, IT, SIT>(a, rows, cols, nnz); return BLOCK_CSR;
        case 2: *t = new BlockCsrParallel<T, IT, SIT>(a, rows, cols, nnz); return BLOCK_CSR_PAR;
        case 3: *t = new DenseParallel<T, IT>(a, rows, cols, nnz); return BLOCK_DENSE;
        default: *t = new DenseSerial<T, IT>(a, rows, cols, nnz); return BLOCK_DENSE;
        }
    }
};
template <class W, class M> static W *wrap(M *m) { W *w = new W; w->m = m; return w; }
static void sizes(const Spec &s, IT &br, IT &bc, size_t vs) {
    if (s.mode == BY_PICK) br = bc = pick_block_size((IT)s.rows, (IT)s.cols, vs, s.workers);
    else { br = s.nbr; bc = s.nbc; }
}
template <class T, class M, class W, class COO> static Mat *csbr(const Spec &s, COO *b) {
    auto *m = s.object ? (M *)s.object : new (dirty<M>(s)) M(); IT br, bc;
    if (s.mode == BY_OFFSETS) { IT *ro = offs(s.roff, s.nbr); Coo_to_Csbr(m, b, ro, (IT)s.nbr, offs(s.coff, s.nbc), (IT)s.nbc); }
    else { sizes(s, br, bc, sizeof(T)); Coo_to_Csbr(m, b, br, bc); }
    return wrap<W>(m);
}
template <class T, class M, class W> static Mat *cgbr(const Spec &s) {
    M *m = dirty<M>(s); auto *b = coo3<T>(s); IT br, bc;
    if (s.mode == BY_OFFSETS) { IT *ro = offs(s.roff, s.nbr); Coo_to_Cgbr(m, b, ro, (IT)s.nbr, offs(s.coff, s.nbc), (IT)s.nbc); }
    else { sizes(s, br, bc, sizeof(T)); Coo_to_Cgbr(m, b, br, bc); }
    return wrap<W>(m);
}
template <class T, class M, class W> static Mat *cgbr2(const Spec &s, bool fac) {
    M *m = s.object ? (M *)s.object : new (dirty<M>(s)) M; auto *b = coo3<T>(s); IT br, bc;
    if (s.mode == BY_OFFSETS) {
        IT *ro = offs(s.roff, s.nbr), *co = offs(s.coff, s.nbc);
        if (fac) { AllKinds<T, Wide> f; Coo_to_Cgbr(m, b, ro, (IT)s.nbr, co, (IT)s.nbc, f); }
        else Coo_to_Cgbr(m, b, ro, (IT)s.nbr, co, (IT)s.nbc);
    } else { sizes(s, br, bc, sizeof(T)); Coo_to_Cgbr(m, b, br, bc); }
    return wrap<W>(m);
}
template <class T> static Mat *mk(const Spec &s) {
    switch (s.fmt) {
    case CSBR_C2: return csbr<T, Csbr<T, IT>, Bal<T, Csbr<T, IT>>>(s, coo2<T>(s));
    case CSBR_C3: return csbr<T, Csbr<T, IT>, Bal<T, Csbr<T, IT>>>(s, coo3<T>(s));
    case CSBR2_C3: return csbr<T, Csbr2<T, IT>, Plain<T, Csbr2<T, IT>>>(s, coo3<T>(s));
    case CGBR16: return cgbr<T, Cgbr<T, IT, Wide>, GenS<T, Cgbr<T, IT, Wide>>>(s);
    case CGBR8: return cgbr<T, Cgbr<T, IT, uint8_t>, GenS<T, Cgbr<T, IT, uint8_t>>>(s);
    case CGBR2_16: return cgbr2<T, Cgbr2<T, IT, uint16_t>, Gen<T, Cgbr2<T, IT, uint16_t>>>(s, false);
    case CGBR2_8: return cgbr2<T, Cgbr2<T, IT, uint8_t>, Gen<T, Cgbr2<T, IT, uint8_t>>>(s, false);
    case CGBR2_FAC: return cgbr2<T, Cgbr2<T, IT, Wide>, Gen<T, Cgbr2<T, IT, Wide>>>(s, true);
    }
    return nullptr;
}
static Mat *any(const Spec &s) { Mat *m = s.dbl ? mk<double>(s) : mk<float>(s); if (s.force_balanced >= 0) m->set_balanced(s.force_balanced); return m; }
}
#ifdef PRIMARY
Mat *api::build_blk(const Spec &s) { if (s.index == 1) return build_blk_u64(s); return any(s); }
uint32_t api::pick(uint32_t m, uint32_t n, uint32_t vs, int w) { return pick_block_size((uint32_t)m, (uint32_t)n, (size_t)vs, w); }
#else
Mat *api::BUILD_BLK(const Spec &s) { return any(s); }
uint64_t api::PICK(uint64_t m, uint64_t n, uint32_t vs, int w) { return (uint64_t)pick_block_size((IT)m, (IT)n, (size_t)vs, w); }
#endif
