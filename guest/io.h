// Boundary for the file readers and writers.
#pragma once
#include "api.h"
namespace api {
enum IoFn { // writers
    W_BIN_C2, W_BIN_C3, W_MM_C2, W_MM_C3, W_3_C2, W_3_C3, W_ARR_IDX, W_ARR_VAL, W_BLK, IO_WRITERS,
    // readers
    R_BIN_C2 = IO_WRITERS, R_BIN_C3, R_ANY_C2, R_ANY_C3, R_CSR, R_MM_C2, R_MM_C3, R_3_COO1, R_3_C2, R_3_C3, R_ARR_IDX, R_ARR_VAL,
    R_BLK_CSBR, R_BLK_CSBR2, R_BLK_CGBR16, R_BLK_CGBR8, IO_FNS };
extern const char *const io_name[IO_FNS];
struct Bits { uint32_t r, c; uint64_t v; uint32_t block; };   // value as the bits of float or double
struct IoJob {
    int fn = 0; bool dbl = true; const char *f1 = "", *f2 = "", *f3 = "";
    uint32_t rows = 0, cols = 0, nnz = 0; Bits *rec = nullptr;        // in for writers, out for readers (guest heap)
    uint32_t nbr = 0, nbc = 0; const uint32_t *roff = nullptr, *coff = nullptr; uint32_t nblocks = 0;
    uint8_t fill = 0xA5; bool drop = false;                           // release what a reader built instead of describing it
    int ret = -99; Mat *mat = nullptr; uint64_t ptr_total = 0;
    int index = 0;                                                    // index type: uint32_t, or uint64_t
    uint64_t shape[3] = {0, 0, 0}; bool outside = false;              // what a reader returned, unshortened; an index beyond the shape
};
void run_io(IoJob &);                // guest mode
__attribute__((weak)) void run_io_u64(IoJob &);
uint64_t do_file_size(const char *);
}
