#include "sort.h"
#include <cstring>
#include <algorithm>
#include <cstdlib>
#include "common.h"
#include "typedefs.h"
#include "utils.h"
#include "permute.h"
#include "expand.h"
using namespace api;
#ifndef INDEX_T
#define INDEX_T uint32_t
#define PRIMARY
#endif
typedef INDEX_T IT;
namespace {
// 64-bit indices are scaled so that the low half alone says nothing about the order
#ifdef PRIMARY
IT scaled(uint32_t v) { return v; }
IT up(uint32_t v) { return v; }
bool down(IT v, uint32_t *o) { *o = v; return true; }
const int XS = 0;
IT eup(uint32_t v) { return v; }
#else
IT scaled(uint32_t v) { return (IT)v << 32; }
IT up(uint32_t v) { return (IT)v << 32 | (uint32_t)(v * 2654435761u); }
bool down(IT v, uint32_t *o) { *o = (uint32_t)(v >> 32); return up(*o) == v; }
const int XS = 16;                      // expansion: sizes times 65536
IT eup(uint32_t v) { return (IT)v << XS | (uint16_t)(v * 40503u); }
#endif
template <class P, class T> static P *load(const SortJob &j) { P *p = (P *)malloc(j.n * sizeof(P)); for (IT i = 0; i < j.n; i++) { p[i].row = up(j.rec[i].r); p[i].col = up(j.rec[i].c); p[i].val = (T)j.rec[i].v; } return p; }
template <class P> static void store(SortJob &j, P *p) { for (IT i = 0; i < j.n; i++) { j.rec[i].v = p[i].val; if (!down(p[i].row, &j.rec[i].r) || !down(p[i].col, &j.rec[i].c)) j.rec[i].v = -1; } free(p); }
template <class P, class T> static P *load16(const SortJob &j) { P *p = (P *)malloc(j.n * sizeof(P)); for (IT i = 0; i < j.n; i++) { p[i].row = j.rec[i].r; p[i].col = j.rec[i].c; p[i].val = (T)j.rec[i].v; } return p; }
template <class P> static void store16(SortJob &j, P *p) { for (IT i = 0; i < j.n; i++) { j.rec[i].r = p[i].row; j.rec[i].c = p[i].col; j.rec[i].v = p[i].val; } free(p); }
static IT *dup(const uint32_t *s, uint32_t n) { IT *p = (IT *)malloc(n * sizeof(IT)); for (uint32_t i = 0; i < n; i++) p[i] = scaled(s[i]); return p; }
static IT *same(const uint32_t *s, uint32_t n) { IT *p = (IT *)malloc(n * sizeof(IT)); for (uint32_t i = 0; i < n; i++) p[i] = s[i]; return p; }
static IT *blocks(const uint32_t *s, uint32_t n) { IT *p = (IT *)malloc(n * sizeof(IT)); for (uint32_t i = 0; i < n; i++) p[i] = (IT)s[i] << XS; return p; }
template <class T> static void go(SortJob &j) {
    typedef Triplet<T, IT> Tr; typedef Element<T, IT> El; typedef Triplet<T, uint16_t> Tr16; typedef Element<T, uint16_t> El16;
    IT n = j.n;
    switch (j.kind) {
    case S_TRIP_ROW: { Tr *p = load<Tr, T>(j); sort_triplets(p, n); store(j, p); break; }
    case S_TRIP_COL: { Tr *p = load<Tr, T>(j); sort_triplets(p, n, false); store(j, p); break; }
    case S_ELEM_ROW: { El *p = load<El, T>(j); for (IT i = 0; i < n; i++) p[i].block = j.rec[i].block; sort_triplets(p, n, true); for (IT i = 0; i < n; i++) j.rec[i].block = p[i].block; store(j, p); break; }
    case S_ELEM_COL: { El *p = load<El, T>(j); for (IT i = 0; i < n; i++) p[i].block = j.rec[i].block; sort_triplets(p, n, false); for (IT i = 0; i < n; i++) j.rec[i].block = p[i].block; store(j, p); break; }
    case S_TRIP_WIDE: { Tr *p = load<Tr, T>(j); sort_triplets_widerows(p, n, scaled(j.width)); store(j, p); break; }
    case S_ELEM_WIDE: { El *p = load<El, T>(j); for (IT i = 0; i < n; i++) p[i].block = j.rec[i].block; sort_triplets_widerows(p, n, scaled(j.width)); for (IT i = 0; i < n; i++) j.rec[i].block = p[i].block; store(j, p); break; }
    case S_MORTON16_E: { El16 *p = load16<El16, T>(j); for (IT i = 0; i < n; i++) p[i].block = 0; sort_triplets_morton(p, n); store16(j, p); break; }
    case S_MORTON16_T: { Tr16 *p = load16<Tr16, T>(j); sort_triplets_morton(p, n); store16(j, p); break; }
    case S_BLOCK_ELEM: { El *p = load<El, T>(j); IT *ro = dup(j.roff, j.nbr + 1), *co = dup(j.coff, j.nbc + 1); calculate_block_id(p, n, ro, (IT)j.nbr, co, (IT)j.nbc); sort_elements_blocks(p, n); for (IT i = 0; i < n; i++) j.rec[i].block = p[i].block; store(j, p); free(ro); free(co); break; }
    case S_BLOCK_ELEM_EQ: { El *p = load<El, T>(j); calculate_block_id(p, n, scaled(j.bs_r), scaled(j.bs_c), (IT)j.nbc); sort_elements_blocks(p, n); for (IT i = 0; i < n; i++) j.rec[i].block = p[i].block; store(j, p); break; }
    case S_BLOCK_TRIP: { Tr *p = load<Tr, T>(j); IT *ro = dup(j.roff, j.nbr + 1), *co = dup(j.coff, j.nbc + 1); sort_triplets_blocks(p, n, ro, (IT)j.nbr, co, (IT)j.nbc); store(j, p); free(ro); free(co); break; }
    }
}

template <class P> static void pp(Rec *r, IT n, const uint32_t *perm) {
    P *p = (P *)malloc(n * sizeof(P)); for (IT i = 0; i < n; i++) { p[i].row = r[i].r; p[i].col = r[i].c; p[i].val = r[i].v; }
#ifdef PRIMARY
    permute_indeces(p, n, (IT *)perm);
#else
    uint32_t m = 0; for (IT i = 0; i < n; i++) m = std::max(m, std::max(r[i].r, r[i].c)); IT *q = same(perm, n ? m + 1 : 0); permute_indeces(p, n, q); free(q);
#endif
    for (IT i = 0; i < n; i++) { r[i].r = p[i].row; r[i].c = p[i].col; r[i].v = p[i].val; } free(p);
}
static void points(Rec *r, uint32_t n, const uint32_t *perm, int elem, bool dbl) {
    if (elem) { if (dbl) pp<Element<double, IT>>(r, n, perm); else pp<Element<float, IT>>(r, n, perm); }
    else { if (dbl) pp<Triplet<double, IT>>(r, n, perm); else pp<Triplet<float, IT>>(r, n, perm); }
}
static uint32_t esize(IT k) { return k & (((IT)1 << XS) - 1) ? 0xdeadbeef : (uint32_t)(k >> XS); }
template <class T> static uint32_t ee(Rec *r, IT n, const uint32_t *bs, uint32_t *bo, IT nb) {
    typedef Element<T, IT> El; El *p = (El *)malloc(n * sizeof(El)); for (IT i = 0; i < n; i++) { p[i].row = eup(r[i].r); p[i].col = eup(r[i].c); p[i].val = (T)r[i].v; p[i].block = r[i].block; }
#ifdef PRIMARY
    IT k = expand_indeces(p, n, (IT *)bs, (IT *)bo, nb);
#else
    IT *b = blocks(bs, nb), *o = blocks(bo, nb + 1); IT k = expand_indeces(p, n, b, o, nb); free(b); free(o);
#endif
    for (IT i = 0; i < n; i++) { r[i].v = p[i].val; r[i].block = p[i].block; r[i].r = (uint32_t)(p[i].row >> XS); r[i].c = (uint32_t)(p[i].col >> XS); }
    free(p); return esize(k);
}
}
#ifdef PRIMARY
void api::run_sort(SortJob &j) { if (j.index) run_sort_u64(j); else if (j.dbl) go<double>(j); else go<float>(j); }
void api::run_sort_in_region(SortJob *jobs, int njobs, int threads, int how) {
    if (how == 0) {           // every worker sorts arrays of its own
        #pragma omp parallel for schedule(dynamic,1) num_threads(threads)
        for (int i = 0; i < njobs; i++) run_sort(jobs[i]);
    } else if (how == 1) {    // one worker sorts, the team helps
        #pragma omp parallel num_threads(threads)
        {
            #pragma omp master
            { for (int i = 0; i < njobs; i++) run_sort(jobs[i]); }
        }
    } else {                  // sorts are tasks
        #pragma omp parallel num_threads(threads)
        {
            #pragma omp single
            for (int i = 0; i < njobs; i++) {
                #pragma omp task firstprivate(i)
                run_sort(jobs[i]);
            }
        }
    }
}
uint32_t *api::do_invert(const uint32_t *p, uint32_t n) { return invert_permutation(p, n); }
void api::do_permute(uint32_t *idx, const uint32_t *perm, uint32_t n) { permute_indeces(idx, (IT *)perm, n); }
void api::do_permute_points(Rec *r, uint32_t n, const uint32_t *perm, int elem, bool dbl) { points(r, n, perm, elem, dbl); }
uint32_t api::do_expand_size(const uint32_t *bs, uint32_t n) { return expand_block_size((IT *)bs, n); }
uint32_t api::do_expand(uint32_t *idx, uint32_t n, const uint32_t *bs, uint32_t nb) { return expand_indeces(idx, n, (IT *)bs, nb); }
uint32_t api::do_expand_index(const uint32_t *off, uint32_t nb, uint32_t size, uint32_t idx) { return expand_index((IT *)off, nb, size, idx); }
uint32_t api::do_expand_elements(Rec *r, uint32_t n, const uint32_t *bs, uint32_t *bo, uint32_t nb, bool dbl) { return dbl ? ee<double>(r, n, bs, bo, nb) : ee<float>(r, n, bs, bo, nb); }
#else
void api::run_sort_u64(SortJob &j) { if (j.dbl) go<double>(j); else go<float>(j); }
uint32_t *api::do_invert_u64(const uint32_t *p, uint32_t n) { IT *q = same(p, n), *v = invert_permutation(q, (IT)n); uint32_t *r = (uint32_t *)malloc(n * sizeof(uint32_t)); for (uint32_t i = 0; i < n; i++) r[i] = v[i] > 0xffffffffu ? 0xffffffffu : (uint32_t)v[i]; free(q); delete[] v; return r; }
void api::do_permute_u64(uint32_t *idx, const uint32_t *perm, uint32_t n) { uint32_t m = 0; for (uint32_t i = 0; i < n; i++) m = std::max(m, idx[i]); IT *x = same(idx, n), *q = same(perm, n ? m + 1 : 0); permute_indeces(x, q, (IT)n); for (uint32_t i = 0; i < n; i++) idx[i] = x[i] > 0xffffffffu ? 0xffffffffu : (uint32_t)x[i]; free(x); free(q); }
void api::do_permute_points_u64(Rec *r, uint32_t n, const uint32_t *perm, int elem, bool dbl) { points(r, n, perm, elem, dbl); }
uint32_t api::do_expand_size_u64(const uint32_t *bs, uint32_t n) {
    IT *b = blocks(bs, n); for (uint32_t i = 0; i < n; i++) if (bs[i] > 1) b[i] -= 65535;     // needs as large a power of two, with other low bits
    IT k = expand_block_size(b, (IT)n); free(b); return esize(k);
}
uint32_t api::do_expand_u64(uint32_t *idx, uint32_t n, const uint32_t *bs, uint32_t nb) {
    IT *b = blocks(bs, nb), *x = (IT *)malloc(n * sizeof(IT)); for (uint32_t i = 0; i < n; i++) x[i] = eup(idx[i]);
    IT k = expand_indeces(x, (IT)n, b, (IT)nb);
    for (uint32_t i = 0; i < n; i++) idx[i] = (uint16_t)x[i] == (uint16_t)(idx[i] * 40503u) ? (uint32_t)(x[i] >> XS) : 0xdeadbeef;
    free(b); free(x); return esize(k);
}
uint32_t api::do_expand_index_u64(const uint32_t *off, uint32_t nb, uint32_t size, uint32_t idx) { IT *o = blocks(off, nb + 1), e = expand_index(o, (IT)nb, (IT)size << XS, eup(idx)); free(o); return (uint16_t)e == (uint16_t)(idx * 40503u) ? (uint32_t)(e >> XS) : 0xdeadbeef; }
uint32_t api::do_expand_elements_u64(Rec *r, uint32_t n, const uint32_t *bs, uint32_t *bo, uint32_t nb, bool dbl) { return dbl ? ee<double>(r, n, bs, bo, nb) : ee<float>(r, n, bs, bo, nb); }
#endif
