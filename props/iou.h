// Shared parts of the storage harnesses: contents, documented layouts, fault plans.
#pragma once
#include "util.h"
#include "../guest/io.h"
#include <string>
struct Content {
    bool dbl = true; uint32_t rows = 1, cols = 1; std::vector<api::Bits> rec;
    std::vector<uint32_t> roff, coff; uint32_t nblocks = 0; int index = 0;  // block partition, when blocked
};
enum Values { ANY_BITS, FINITE, SMALL_INT };
uint64_t any_value(sim::Rng &g, bool dbl, int kind);
Content gen_content(uint32_t max_nnz, uint32_t max_rows, uint32_t max_cols, int values);
Content gen_blocked(uint32_t max_dim, uint32_t max_nnz, uint32_t max_block);   // integer values, any partition
Content from_matrix(const Matrix &m, bool dbl);
Matrix to_matrix(const Content &c);
bool row_sorted(const Content &c);
void sort_rows(Content &c);
void block_sort(Content &c);                                           // what the sort before write_bin_blocked promises
std::string bytes_bin(const Content &), bytes_idx(const Content &, bool col), bytes_val(const Content &), bytes_blk(const Content &);
enum Family { F_BIN, F_MM, F_3, F_ARR_IDX, F_ARR_VAL, F_BLK };
Family family(int fn);
inline bool is_writer(int fn) { return fn < api::IO_WRITERS; }
struct Files { const char *f[3]; int n; };
Files files_of(int fn);                                                // fixed names per family
std::string expected_file(const Content &, int fn, int k);             // documented bytes of file k (not for MM)
void put_files(const Content &c, int fn);
// one call of the library; the job points at guest copies of the content
sim::Result call_io(int fn, const Content &c, api::IoJob &j);
inline bool failed(const sim::Result &r, const api::IoJob &j) { return r.outcome == sim::FAILSTOP || (r.outcome == sim::EXITED && r.code != 0) || (r.outcome == sim::RETURNED && j.ret < 0); }
inline bool success(const sim::Result &r, const api::IoJob &j) { return r.outcome == sim::RETURNED && j.ret >= 0; }
std::string verdict(const sim::Result &r, const api::IoJob &j);
// compares what a reader returned with the content; empty string if equal
std::string compare_read(const Content &c, int fn, const api::IoJob &j);
int pick_reader(bool blocked_too);
void io_schedule();                                                    // scheduler, team size and race detector for code that should be serial
void tame_io();                                                        // storage behaviour without faults: buffers, short transfers
void free_rec(api::IoJob &j);
bool reader_ok_for(int fn, const Content &c);
// multiplies the blocked matrix in j and compares with the content
void check_blocked(const Content &c, int fn, api::IoJob &j, const char *cls);
