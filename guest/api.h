// Boundary between host harness and instrumented library code.  Plain types only.
#pragma once
#include <cstdint>
#include <cstddef>
namespace api {
enum Fmt { CSR_C2, CSR_C3, CSR2_C2, CSR2_C3, CSWR16_C2, CSWR8_C3, CRCSR_C2, CRCSR_C3, COO1_M, COO1_C, COO2, COO3, DENSE_C2, DENSE_C3, DENSE_SER, DENSE_PAR,
           ROW_FMTS,
           CSBR_C2 = ROW_FMTS, CSBR_C3, CSBR2_C3, CGBR16, CGBR8, CGBR2_16, CGBR2_8, CGBR2_FAC, ALL_FMTS };
extern const char *const fmt_name[ALL_FMTS];
struct Ent { uint32_t r, c; double v; };
enum BlockMode { BY_OFFSETS, BY_SIZE, BY_PICK };
struct Spec {
    int fmt = 0; bool dbl = true;
    uint32_t rows = 0, cols = 0; const Ent *ent = nullptr; uint32_t nnz = 0;
    int mode = BY_OFFSETS; const uint32_t *roff = nullptr, *coff = nullptr; uint32_t nbr = 1, nbc = 1;   // offsets, or sizes in nbr/nbc
    int workers = 1;                 // for BY_PICK
    uint32_t width = 32;             // wide rows
    uint8_t fill = 0;                // previous contents of the matrix object
    int force_balanced = -1;
    void *object = nullptr;          // build into this released matrix object of the same format
    bool sorted = false;             // the entries are in row order, and the constructor is told so
    void *src = nullptr;             // build from this coordinate matrix instead of a fresh one
    int index = 0;                   // index type: uint32_t, or uint64_t
};
struct Mat {
    virtual void spmv(const void *x, void *y) const = 0;
    virtual bool spmv_serial(const void *, void *) const { return false; }
    virtual uint64_t nonzeros() const = 0;
    virtual int balanced() const { return -1; }
    virtual void set_balanced(bool) {}
    virtual bool stats(uint64_t *blocks, uint64_t *nnz) const { (void)blocks; (void)nnz; return false; }   // six each
    virtual uint64_t nblocks() const { return 0; }
    virtual bool entry(uint32_t, Ent *) const { return false; }                  // coordinate formats
    virtual uint64_t shape_rows() const { return ~0ull; }
    virtual uint64_t shape_cols() const { return ~0ull; }
    virtual void release() {}
    virtual void *keep() { release(); return nullptr; }                         // release, but hand back the object for Spec::object
};
__attribute__((weak)) Mat *build_row(const Spec &);        // guest mode; a check may be linked with one of the two only
__attribute__((weak)) Mat *build_blk(const Spec &);
// the same with other index types, where they are linked
__attribute__((weak)) Mat *build_row_u64(const Spec &);
__attribute__((weak)) Mat *build_blk_u64(const Spec &);
// coordinate matrices that several matrices are built from; kind 2 or 3
void *make_source(const Spec &, int kind);
void source_entry(void *, int kind, bool dbl, uint32_t i, Ent *);
void source_shape(void *, int kind, bool dbl, uint32_t *rows, uint32_t *cols, uint32_t *nnz);
void source_spmv(void *, int kind, bool dbl, const void *x, void *y);
void source_scramble(void *, int kind, bool dbl);
void source_release(void *, int kind, bool dbl);
void *adapter_alloc(size_t n);          // memory for the adapters: never fails
uint32_t pick(uint32_t m, uint32_t n, uint32_t val_size, int workers);
__attribute__((weak)) uint64_t pick_u64(uint64_t m, uint64_t n, uint32_t val_size, int workers);
}
