#include "api.h"
#include <cstring>
#include <new>
#include "common.h"
#include "utils.h"
#include "matrix/csbr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "part.h"
using namespace api;
typedef uint32_t IT;
template <class M> static M *dirty(const Spec &s) { void *p = malloc(sizeof(M)); memset(p, s.fill, sizeof(M)); return (M *)p; }
template <class T, class B> static void fill3(B *b, const Spec &s) { for (IT i = 0; i < s.nnz; i++) set_point(b, i, s.ent[i].r, s.ent[i].c, (T)s.ent[i].v); }
template <class T> static Coo3<T, IT> *coo3(const Spec &s) { auto *B = (Coo3<T, IT> *)malloc(sizeof(Coo3<T, IT>)); allocate(B, s.nnz); B->rows = s.rows; B->columns = s.cols; fill3<T>(B, s); for (IT i = 0; i < s.nnz; i++) B->elements[i].block = 0; return B; }
template <class T> static Coo2<T, IT> *coo2(const Spec &s) { auto *B = (Coo2<T, IT> *)malloc(sizeof(Coo2<T, IT>)); allocate(B, s.nnz); B->rows = s.rows; B->columns = s.cols; fill3<T>(B, s); return B; }
static IT *offs(const uint32_t *o, uint32_t n) { IT *p = (IT *)malloc((n + 1) * sizeof(IT)); for (uint32_t i = 0; i <= n; i++) p[i] = o[i]; return p; }
template <class T, class M> struct Pt : PartMat {
    M *m; bool always;
    bool partitioned() const override { return always || !m->balanced; }
    uint32_t blockrows() const override { return m->blockrows; }
    uint32_t nblocks() const override { return m->nnzblocks; }
    uint32_t first_block(uint32_t br) const override { return m->blockrow_ptr[br]; }
    uint32_t nbounds(uint32_t br) const override { return (uint32_t)m->partition[br].chunks.size(); }
    uint32_t bound(uint32_t br, uint32_t i) const override { return (uint32_t)m->partition[br].chunks[i]; }
    void spmv(const void *x, void *y) const override { m->spmv((const T *)x, (T *)y); }
};
template <class T, class M> static PartMat *wrap(M *m, bool always) { auto *w = new Pt<T, M>; w->m = m; w->always = always; return w; }
template <class T> static PartMat *mk(const Spec &s) {
    IT *ro = offs(s.roff, s.nbr), *co = offs(s.coff, s.nbc);
    switch (s.fmt) {
    case CSBR_C2: { auto *m = new (dirty<Csbr<T, IT>>(s)) Csbr<T, IT>(); Coo_to_Csbr(m, coo2<T>(s), ro, (IT)s.nbr, co, (IT)s.nbc); return wrap<T>(m, true); }
    case CSBR_C3: { auto *m = new (dirty<Csbr<T, IT>>(s)) Csbr<T, IT>(); Coo_to_Csbr(m, coo3<T>(s), ro, (IT)s.nbr, co, (IT)s.nbc); return wrap<T>(m, true); }
    case CGBR16: { auto *m = dirty<Cgbr<T, IT, uint16_t>>(s); Coo_to_Cgbr(m, coo3<T>(s), ro, (IT)s.nbr, co, (IT)s.nbc); return wrap<T>(m, false); }
    case CGBR8: { auto *m = dirty<Cgbr<T, IT, uint8_t>>(s); Coo_to_Cgbr(m, coo3<T>(s), ro, (IT)s.nbr, co, (IT)s.nbc); return wrap<T>(m, false); }
    case CGBR2_8: { auto *m = new (dirty<Cgbr2<T, IT, uint8_t>>(s)) Cgbr2<T, IT, uint8_t>; Coo_to_Cgbr(m, coo3<T>(s), ro, (IT)s.nbr, co, (IT)s.nbc); return wrap<T>(m, true); }
    default: { auto *m = new (dirty<Cgbr2<T, IT, uint16_t>>(s)) Cgbr2<T, IT, uint16_t>; Coo_to_Cgbr(m, coo3<T>(s), ro, (IT)s.nbr, co, (IT)s.nbc); return wrap<T>(m, true); }
    }
}
PartMat *api::build_part(const Spec &s) { return s.dbl ? mk<double>(s) : mk<float>(s); }
