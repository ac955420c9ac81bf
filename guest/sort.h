#pragma once
#include "api.h"
namespace api {
struct Rec { uint32_t r, c; double v; uint32_t block; };       // v carries the original position
enum SortKind { S_TRIP_ROW, S_TRIP_COL, S_ELEM_ROW, S_ELEM_COL, S_TRIP_WIDE, S_ELEM_WIDE, S_MORTON16_E, S_MORTON16_T, S_BLOCK_ELEM, S_BLOCK_ELEM_EQ, S_BLOCK_TRIP, S_KINDS };
// sorts a copy of in[0..n) and writes the outcome to out; everything in guest memory of its own
struct SortJob {
    int kind; bool dbl; uint32_t n; Rec *rec; uint32_t width;
    const uint32_t *roff, *coff; uint32_t nbr, nbc; uint32_t bs_r, bs_c;
    int index;                       // index type: uint32_t, or uint64_t with keys beyond 32 bits
};
void run_sort(SortJob &j);
void run_sort_in_region(SortJob *jobs, int njobs, int threads, int how);   // from inside an already parallel region

uint32_t *do_invert(const uint32_t *p, uint32_t n);
void do_permute(uint32_t *idx, const uint32_t *perm, uint32_t n);
void do_permute_points(Rec *r, uint32_t n, const uint32_t *perm, int elem, bool dbl);
uint32_t do_expand_size(const uint32_t *bs, uint32_t n);
uint32_t do_expand(uint32_t *idx, uint32_t n, const uint32_t *bs, uint32_t nb);
uint32_t do_expand_elements(Rec *r, uint32_t n, const uint32_t *bs, uint32_t *boff, uint32_t nb, bool dbl);
// the same with 64-bit indices, every size and index scaled beyond 32 bits; where they are linked
__attribute__((weak)) void run_sort_u64(SortJob &j);
__attribute__((weak)) uint32_t *do_invert_u64(const uint32_t *p, uint32_t n);
__attribute__((weak)) void do_permute_u64(uint32_t *idx, const uint32_t *perm, uint32_t n);
__attribute__((weak)) void do_permute_points_u64(Rec *r, uint32_t n, const uint32_t *perm, int elem, bool dbl);
__attribute__((weak)) uint32_t do_expand_size_u64(const uint32_t *bs, uint32_t n);
__attribute__((weak)) uint32_t do_expand_u64(uint32_t *idx, uint32_t n, const uint32_t *bs, uint32_t nb);
__attribute__((weak)) uint32_t do_expand_elements_u64(Rec *r, uint32_t n, const uint32_t *bs, uint32_t *boff, uint32_t nb, bool dbl);
__attribute__((weak)) uint32_t do_expand_index_u64(const uint32_t *off, uint32_t nb, uint32_t size, uint32_t idx);
uint32_t do_expand_index(const uint32_t *off, uint32_t nb, uint32_t size, uint32_t idx);
}
