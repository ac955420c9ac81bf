import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
T="bin/test/result multiplies 13 fixed matrices once at 1 and 4 threads under whatever schedule the OpenMP runtime happens to produce"
p("C01","Row-parallel SpMV computes y += A*x under every schedule",
 "Multiplying a sparse matrix stored in any of the row-oriented formats (CSR in both layouts, wide-row, compressed-row, coordinate and dense) adds exactly A*x to the caller's y: every stored entry contributes exactly once, and duplicates at the same position add up. This holds for every matrix shape and sparsity pattern (empty rows, a single row or column, no entries), every worker count and every interleaving of the workers, and the call always returns.",
 ["schedules","inputs","configurations"],"all matrices (shape, pattern, duplicates), x and initial y; all team sizes including 1 and more workers than rows; all assignments of loop chunks to workers and all interleavings; stalled workers",
 "Tests fix the matrices and never control the schedule: "+T+", so chunk-assignment dependent errors, ragged tails and oversubscribed teams are not reached.",
 ["include/matrix/csr.1.h","include/matrix/csr.2.h","include/matrix/cswr.h","include/matrix/crcsr.h","include/matrix/dense.h","include/spmv/csr.h","include/spmv/coo.h","include/spmv/dense.h","include/spmv/omp/csr.h","include/spmv/omp/crcsr.h","include/spmv/omp/dense.h"],
 [("worksharing loop over rows, each row owned by one iteration","include/spmv/omp/csr.h"),("wide-row groups own disjoint y ranges","include/matrix/cswr.h"),("compressed row index list","include/spmv/omp/crcsr.h")],
 ["y after spmv()"])
p("C02","Blocked SpMV with balanced block-rows equals A*x",
 "Multiplying a matrix stored in any blocked format (CSR blocks in both layouts, generalized blocks in both generations and both small-index widths) adds exactly A*x to y, whatever block-row and block-column boundaries were chosen, whichever storage each block picked, and however block-rows are handed to workers. Explicitly given boundaries and boundaries derived from a constant block size give the same answer.",
 ["schedules","inputs","configurations"],"all matrices, all block partitions (regular, ragged, single block, one row per block), all team sizes and interleavings on the path where block-rows are the unit of parallelism",
 T+" with one automatically chosen block size per matrix; ragged or explicit partitions, other block sizes and controlled schedules are never tried.",
 ["include/matrix/csbr.h","include/matrix/csbr.2.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/blocks.h","include/matrix/block_coo.1.h","include/matrix/block_csr.h","include/matrix/dense.h","include/generic/gsb.h","include/spmv/omp/gsb.h"],
 [("block-row loop with disjoint y ranges","include/spmv/omp/gsb.h"),("per-block storage selection","include/matrix/cgbr.h, include/matrix/blocks.h"),("offset tables from constant block size","include/generic/gsb.h")],
 ["y after spmv()"])
p("C03","SpMV with parallelism inside a block-row equals A*x",
 "When a blocked matrix is multiplied with its block-rows split into chunks that run as parallel tasks, y still receives exactly A*x: partial results are combined exactly once and only after they are complete. This holds for any number of chunks, any order in which tasks are deferred, stolen or run inline, with and without nested parallelism, and when the matrix was built under a different worker count than the one that multiplies it.",
 ["schedules","configurations","histories"],"all task schedules (deferred, inline, stolen), nested teams on or off, worker count at construction versus multiplication, all chunkings of a block-row",
 "The unbalanced path is taken only when a matrix happens to be skewed; task timing there is whatever the runtime does on an idle machine, where tasks usually finish before anybody could observe a premature combine.",
 ["include/spmv/omp/gsb.h","include/partition.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/csbr.h"],
 [("recursive task split with private accumulator and taskwait before the combine","include/spmv/omp/gsb.h spmv_chunk"),("chunk table built from worker count","include/partition.h"),("balance heuristic selects the path","include/matrix/cgbr.h is_balanced")],
 ["y after spmv()"])
p("C04","SpMV is race-free, memory-safe and writes only y",
 "During a multiplication in any format no two workers access the same memory without ordering when one of them writes, every access stays inside live memory, and every temporary is released at most once and never used afterwards. The matrix and x are left bit-for-bit unchanged and nothing outside the row range of y is written.",
 ["schedules","inputs","configurations"],"all formats and matrices; all interleavings, team sizes, nesting and task placements",
 "A race or stray access that does not change the result on the observed schedule passes every existing test; the tests compare results only.",
 ["include/spmv/omp/gsb.h","include/spmv/omp/csr.h","include/spmv/omp/crcsr.h","include/spmv/omp/dense.h","include/spmv/coo.h","include/matrix/cswr.h","include/matrix/csbr.2.h"],
 [("row/block-row ownership of y","include/spmv/omp"),("private accumulator per split and taskwait","include/spmv/omp/gsb.h")],
 ["every memory access made during spmv()"])
p("C05","Concurrent callers can share one matrix",
 "Any number of application threads may multiply with the same matrix object at the same time, each with its own x and y, while other threads construct or sort unrelated matrices, and every caller gets exactly the result it would get alone. Sharing needs no locking by the callers and no caller can block another forever.",
 ["schedules","histories"],"all interleavings of 2-4 concurrent callers, each with its own worker team, over all formats; mixed with concurrent construction of other matrices",
 "No test calls the library from more than one thread.",
 ["include/spmv/omp/gsb.h","include/matrix/cgbr.h","include/matrix/csbr.h","include/matrix/cgbr.2.h","include/matrix/csr.1.h","dep/pss/parallel_stable_sort.h"],
 [("const multiplication, no state kept in the matrix or globally","include/spmv/omp/gsb.h, include/matrix/*.h")],
 ["each caller's y"])
p("C06","Parallel sort: sorted, stable, nothing lost",
 "Every sort the library offers (row-major, column-major, wide-row, Morton, by block) leaves the array ordered by its key, containing exactly the original elements with their values still attached, and elements with equal keys keep their original relative order wherever the sort is documented stable. No two workers touch the same element without ordering. This holds for any array length, worker count and task schedule, when called from inside an already parallel region, and when no scratch memory can be obtained.",
 ["schedules","inputs","fault_sequences"],"all arrays (lengths around the serial/merge cut-offs, presorted, reversed, all-equal, few keys), all task schedules and team sizes, scratch allocation success or failure, call context serial or inside a parallel region",
 "Tests sort only as a side effect of small conversions; the parallel merge path needs thousands of elements, and the no-memory fallback is never run.",
 ["dep/pss/parallel_stable_sort.h","dep/pss/pss_common.h","include/utils.h"],
 [("task-parallel merge sort with lower/upper bound splitting","dep/pss/parallel_stable_sort.h"),("nothrow scratch buffer with serial fallback","dep/pss/pss_common.h"),("comparators","include/utils.h")],
 ["array contents after the call"])
p("C07","Conversion conserves the matrix",
 "Converting a matrix between storage formats loses, duplicates, moves or alters no entry: reconstructing the target column by column gives back exactly the source, reported entry counts equal the source's, and per-storage-type statistics of the generalized formats add up to the whole. This holds for any worker count and schedule of the conversion's internal parallel work, and what is built does not depend on the previous contents of the memory used.",
 ["schedules","inputs","configurations"],"all matrices (including empty, with duplicates, unsorted input), all target formats and block partitions, all worker counts and schedules during conversion, arbitrary contents of fresh memory",
 "The tests multiply once with a random x and compare approximately the same 13 matrices; a lost or misplaced entry whose effect cancels, or that appears only for particular partitions, worker counts or memory contents, goes unseen.",
 ["include/generic/coo.h","include/generic/csr.h","include/generic/gsb.h","include/matrix/csr.1.h","include/matrix/csr.2.h","include/matrix/cswr.h","include/matrix/crcsr.h","include/matrix/csbr.h","include/matrix/csbr.2.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/blocks.h","include/matrix/dense.h","include/utils.h"],
 [("counting and prefix sums after a parallel sort","include/matrix/*.h"),("block id computation","include/utils.h"),("type counters","include/matrix/cgbr.h, include/matrix/cgbr.2.h")],
 ["A*e_j for every column j","nonzeros()","type counters"])
p("C08","Block-row partition covers every block exactly once, in order",
 "The chunk table built for each block-row starts at the block-row's first block, ends after its last, and is non-decreasing in between, so that every block of the matrix belongs to exactly one chunk. Chunks are never split so finely that the number of chunks exceeds the number of blocks plus one, and the table depends only on the matrix and the worker count in force when it was built.",
 ["configurations","inputs","histories"],"all block-row populations (empty, one block, many, heavily skewed), all worker counts, including changes of worker count between builds",
 "The partition test runs the default worker count of the machine on fixed inputs and only prints the table.",
 ["include/partition.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/csbr.h"],
 [("greedy chunking by entry count over worker count","include/partition.h partition_blockrow")],
 ["chunk boundaries of each block-row"],
 [("chunks","boundaries of consecutive blocks handled by one task","include/partition.h")])
p("C09","Permutation and its inverse are exact under any schedule",
 "Applying a permutation to row or column indices replaces every index by its image exactly once, and inverting a permutation gives the permutation that undoes it, so that permute followed by inverse-permute restores the original. This holds for any size, worker count and schedule, with no unordered conflicting accesses; the permutation tools write exactly these images to their output files.",
 ["schedules","inputs"],"all permutations and index arrays, all team sizes and interleavings; index arrays and element arrays; files delivered in arbitrary pieces",
 "No test exercises permutation at all.",
 ["include/permute.h","src/tools/permute.cpp"],
 [("worksharing loops over independent elements","include/permute.h")],["index arrays after the call","output files of the tools"])
p("C10","Index expansion to equal blocks is exact under any schedule",
 "Expanding indices to a uniform block size keeps each entry in its block and at its offset inside the block, uses the smallest power of two not below the largest block size, and never maps two distinct positions to one; block sizes whose expanded dimension does not fit the index type are refused, never wrapped. This holds for any block sizes, any number of indices, any worker count and schedule, with no unordered conflicting accesses.",
 ["schedules","inputs"],"all block-size vectors (including zero-sized blocks, more than 65536 blocks, and sizes around what the index type can hold) and index sets; all team sizes and interleavings; index arrays and element arrays",
 "No test exercises expansion at all.",
 ["include/expand.h","include/utils.h","src/common.cpp"],
 [("block lookup by upper bound over offsets","include/utils.h"),("parallel index rewrite","include/expand.h")],["indices and returned block size"])
p("C11","Binary matrix files round-trip with the documented layout",
 "Writing a matrix in the binary format produces exactly the documented byte layout, and reading it back gives the same shape and the same entries in the same order, however the storage layer splits the transfers. Existing longer files at the target path are replaced entirely, and the CSR reader gives the same matrix as the coordinate reader followed by conversion.",
 ["inputs","fault_sequences"],"all matrices (including empty) and value/index types; arbitrary short reads and writes and buffer sizes; pre-existing target files",
 "No test writes a .bin file, and the ones read are always delivered whole from a healthy disk.",
 ["include/io/input.h","include/io/output.h"],
 [("field-by-field stdio transfers","include/io/input.h, include/io/output.h")],["file bytes","matrix read back"])
p("C12","An incomplete or failing binary read never yields a matrix",
 "If a binary matrix or blocked file is cut short at any byte, or a plain array inside an element, or the storage reports an error while needed bytes are read, the read is reported as failed (error result or orderly termination) and never as success with other contents than the complete file's. A file left behind by a writer that died is refused unless it is complete. When no needed byte is hidden the read succeeds with the correct contents.",
 ["fault_sequences","crash_points","inputs"],"every truncation point of every file; a read error at any I/O operation; open failure; any buffering",
 "Tests only read complete files from a healthy disk.",
 ["include/io/input.h","include/io/blocked.h","src/common.cpp"],
 [("transfer counts compared with the header","include/io/input.h"),("size taken from the file","src/common.cpp get_file_size")],["result code","matrix contents on success"])
p("C13","MatrixMarket files are read as the matrix they describe",
 "Reading a MatrixMarket coordinate file yields exactly the entries it describes: one-based indices become zero-based, symmetric files yield both triangles with the diagonal once, pattern files give value one, integer and real values are read exactly, and comments and blank lines are ignored. A file with fewer or malformed entries, unsupported type or a header out of range is reported as failed, however the storage splits or fails the reads.",
 ["inputs","fault_sequences"],"all coordinate files of the supported kinds, any spacing and comments; truncation at any byte that loses an entry, malformed lines, read errors and short reads at any point",
 "The tests read 13 well-formed files of a few kinds from a healthy disk; truncation, malformed lines and I/O errors never occur.",
 ["include/io/input.h","dep/mm_io/mm_io.c"],
 [("banner and size parsing","dep/mm_io/mm_io.c"),("entry loop with symmetric expansion","include/io/input.h read_mm_COO")],["result code","matrix contents"])
p("C14","A write that did not reach storage is reported",
 "Every function that writes a matrix or array to a file returns a negative result if any of the data could not be stored: file cannot be opened, disk full, I/O error at any write, or failure detected only when the file is closed. It returns zero only if the complete file is on storage.",
 ["fault_sequences","crash_points"],"failure of any single write or of the close, at every position; disk full after any number of bytes; open failure of any output; any buffer size",
 "No test writes files, let alone to a failing disk.",
 ["include/io/output.h","dep/mm_io/mm_io.c"],
 [("result of each write function","include/io/output.h")],["result code versus stored bytes"])
p("C15","Blocked binary files round-trip into every blocked format",
 "A blocked file written from block-sorted elements has the documented layout, and reading it into any blocked format gives a matrix whose multiplication and entry count equal those of the source, for any block partition, worker count and splitting of the reads.",
 ["inputs","schedules","fault_sequences"],"all matrices and block partitions; arbitrary short reads; all schedules of the following multiplication; arbitrary contents of fresh memory",
 "No test writes or reads blocked files.",
 ["include/io/output.h","include/io/blocked.h"],
 [("sequential block records","include/io/blocked.h"),("header check against the caller's partition","include/io/blocked.h")],["y after spmv() on the loaded matrix"])
p("C16","Three-array files and plain arrays round-trip",
 "A matrix written as three binary arrays (rows, columns, values) is read back with the same entries in the same order and with the smallest shape that contains them, and a plain binary array is read back with the same length and contents. If the arrays disagree in length or cannot be opened or read completely, the read is reported as failed.",
 ["inputs","fault_sequences"],"all entry lists and arrays (including empty); arbitrary short transfers; missing, truncated or failing files in any of the positions",
 "No test uses these formats.",
 ["include/io/input.h","include/io/output.h"],
 [("file sizes and sequential reads","include/io/input.h")],["matrix read back","result code"])
p("C17","Damaged input files cannot cause memory errors or bad indices",
 "Reading any sequence of bytes as a matrix file ends after a bounded amount of work without touching memory outside its objects, either with an error report or orderly termination, or with success. On success every row and column index is inside the reported shape and the reported number of entries is present.",
 ["inputs","fault_sequences"],"valid files damaged by bit flips, byte overwrites, insertion, deletion, duplicated or swapped records and header edits, delivered in arbitrary pieces, with failing allocations for absurd sizes",
 "Tests read only well-formed files.",
 ["include/io/input.h","include/io/blocked.h","dep/mm_io/mm_io.c"],
 [("header and index validation","include/io/input.h, include/io/blocked.h"),("banner/size parser","dep/mm_io/mm_io.c")],["outcome, memory accesses, indices of the result"])
p("C18","File handles are closed exactly once on every path",
 "Every function that opens a file closes it exactly once before returning, on success and on every error path, so that repeated failures cannot exhaust handles and no handle is used after being closed.",
 ["fault_sequences","crash_points"],"all readers and writers; open failure of any file, read or write error at any operation, truncated, malformed or inconsistent contents",
 "No test provokes an error path or counts handles.",
 ["include/io/input.h","include/io/output.h","include/io/blocked.h","src/common.cpp"],
 [("fclose before each return","include/io/*.h")],["open handle count and double closes"])
p("C19","File tools never damage inputs, and finish right or not at all",
 "A conversion, sort, permutation, expansion or value-rewriting tool never modifies its input files, whatever failure or crash happens while it runs, and if it is interrupted at any point a binary matrix or blocked file it leaves behind is rejected by the readers unless it is complete. When it runs without faults it exits with status zero and its outputs contain exactly the transformed matrix; when an output could not be written completely it does not exit with status zero.",
 ["crash_points","fault_sequences","inputs"],"crash at any I/O operation with a torn last write; read, write, open and close failures at any operation; disk full after any number of bytes; all small matrices and partitions",
 "No test runs any tool.",
 ["src/tools/convert.cpp","src/tools/convert_blocked.cpp","src/tools/expanded.cpp","src/tools/permute.cpp","src/tools/sort.cpp","src/tools/prepare.cpp","src/tools/double2float.c","src/tools/one2zero.c"],
 [("outputs go to new names derived from arguments","src/tools/*"),("status of read and write calls","src/tools/*")],["simulated disk after exit or crash","exit status"])
p("C20","Timings are sane under clock faults",
 "Measured durations are never negative and equal the time that really passed between the two readings, even if the wall clock is stepped forwards or backwards in between. Benchmark reports order best, median and worst consistently, count the multiplications they claim, and leave the matrix unchanged.",
 ["fault_sequences","histories"],"arbitrary steps and skew of the wall clock between and during measurements; arbitrary durations; any positive iteration count",
 "The tests never move the clock; they only print whatever was measured.",
 ["src/common.cpp","include/common.h","include/test/bench.h","include/test/utils.h"],
 [("clock source","src/common.cpp, include/test/bench.h"),("sorted statistics","src/common.cpp")],["returned durations and printed report"])
p("C21","Automatic block size works for every shape and worker count",
 "For every matrix shape and worker count, the block size the library picks for itself can be passed straight to the blocked constructors, which then build a matrix whose multiplication equals A*x. The picked size is zero (meaning no split) or a power of two no larger than the matrix needs, and on parallel machines leaves at least four block-rows for each worker.",
 ["configurations","inputs","schedules"],"all shapes from 1x1 upwards (tall, wide, square), worker counts 1..256, value sizes, all schedules of construction and multiplication",
 "The tests use the worker count of the machine (or 1 and 4) with 13 shapes.",
 ["include/utils.h","include/generic/gsb.h","include/matrix/csbr.h","src/common.cpp"],
 [("block size heuristic","include/utils.h pick_block_size"),("constant block size constructors","include/generic/gsb.h, include/matrix/csbr.h")],["picked size","y after spmv()"])
p("C22","Results are bit-for-bit reproducible across schedules",
 "Multiplying the same matrix object with the same x and the same initial y, wherever the vectors lie in memory, gives bit-identical floating-point results every time, no matter how work is distributed over workers, how tasks are ordered or how many workers take part.",
 ["schedules","configurations"],"all formats; arbitrary floating-point values where addition order matters; all schedules and team sizes at multiplication time",
 "Tests multiply once per matrix and compare with tolerance, so order-dependent summation is invisible.",
 ["include/spmv/omp/gsb.h","include/spmv/omp/csr.h","include/matrix/cswr.h","include/spmv/omp/crcsr.h","include/spmv/omp/dense.h"],
 [("fixed summation tree per row","include/spmv/omp/gsb.h")],["bits of y"])
p("C23","MatrixMarket output round-trips exactly",
 "Writing a matrix as MatrixMarket text and reading it back gives the same shape and the same entries in the same order with bit-identical finite values, however the storage splits the transfers. The text is a well-formed general real coordinate file with one-based indices.",
 ["inputs","fault_sequences"],"all matrices including empty ones and values of any finite magnitude; arbitrary short reads and writes and buffer sizes; pre-existing target files",
 "No test writes MatrixMarket files.",
 ["include/io/output.h","include/io/input.h","dep/mm_io/mm_io.c"],
 [("banner, size and entry formatting","include/io/output.h write_mm_COO, dep/mm_io/mm_io.c")],["file text","matrix read back"])
p("C24","Bit-twiddling helpers compute their mathematical definitions",
 "Rounding up to a power of two, locating the highest set bit and interleaving coordinate bits equal their mathematical definitions for every representable argument.",
 ["inputs"],"all integer arguments in the documented domain",
 "No test calls them directly.",
 ["src/common.cpp","include/utils.h"],
 [("next_power_of_two, highest_bit_set, bit_interleave","src/common.cpp, include/utils.h")],["return values"])
p("C25","Result comparison and timing statistics are correct",
 "Comparing two result vectors reports equality exactly when all elements are equal, and mean, median and standard deviation equal their definitions for every non-empty sample.",
 ["inputs"],"all vectors and samples",
 "Tests call them on a handful of vectors.",
 ["include/test/utils.h"],
 [("check_results, mean, median, standard_deviation","include/test/utils.h")],["return values"])
p("C26","Benchmark drivers measure the matrix and options they were given",
 "A benchmark driver run on a well-formed matrix file multiplies exactly the matrix in that file, in the format and with the block sizes, permutation, iterations and worker count it was given, and reports the entries, sizes and rates of that matrix. Given a missing, damaged or mismatching file or option it ends with an error report instead of reporting rates, and it never touches memory outside its objects.",
 ["inputs","fault_sequences","schedules"],"small and medium matrix files in every readable form, block sizes valid or not, permutation files that fit or not, read and open errors at any operation, worker counts and schedules",
 "No test runs a benchmark driver.",
 ["src/drivers/bench.cpp","src/drivers/pbench.cpp","src/drivers/blocked.cpp","src/drivers/csr.cpp","src/drivers/cswr.cpp","include/test/bench.h"],
 [("argument handling and matrix construction","src/drivers/*.cpp")],["printed report","exit status"])
p("C27","Conversions copy: matrices and their sources do not share state",
 "A matrix built from a coordinate matrix stays correct, with the same multiplication result bit for bit, whatever happens afterwards to its source and to other matrices built from it: multiplying, overwriting and releasing them. A conversion that does not reorder its source leaves it unchanged, and releasing one matrix frees nothing that another one, or its source, still uses. Formats documented to consume their source are exempt for that source only.",
 ["histories","inputs","schedules"],"any history of building, multiplying, overwriting and releasing over several sources and matrices of every format, in dirty memory, under any schedule",
 "The tests build one matrix per format in one fixed order and never touch a source after converting it.",
 ["include/generic/csr.h","include/generic/coo.h","include/matrix/csr.1.h","include/matrix/csr.2.h","include/matrix/cswr.h","include/matrix/crcsr.h","include/matrix/dense.h","include/matrix/csbr.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h"],
 [("conversions allocate their own arrays","include/matrix/*.h, include/generic/*.h"),("release functions","include/matrix/*.h")],["y after spmv() of every live matrix","entries of the sources"])
p("C28","Memory taken is given back",
 "Multiplying a matrix any number of times, sorting any number of times (also when scratch memory cannot be had), and building a matrix of any format from its entries or from a file and releasing it any number of times, does not make the memory held by the library grow with the number of repetitions. Releasing a matrix returns everything its construction took, except block offsets that belong to the caller.",
 ["histories","fault_sequences","schedules"],"all formats, constructors, file readers and partitions, all sorts with failing scratch allocations, team sizes and schedules",
 "The tests release matrices but never count what is left.",
 ["include/matrix/csbr.h","include/matrix/csbr.2.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/dense.h","include/spmv/omp/gsb.h","include/utils.h","include/io/blocked.h","include/io/input.h"],
 [("release functions","include/matrix/*.h"),("scratch buffers of multiplications and sorts","include/spmv/omp/*.h, sorting code")],["number of live heap blocks"])
p("C29","Index types never truncate or wrap silently",
 "Formats that store the position inside a block or a wide row in a smaller index type never give a wrong result because a position does not fit. With block sizes chosen by the library or given as one constant (zero included, which asks for no split) the blocks are made small enough for every matrix; with explicit partitions, wide-row widths or blocked files that go beyond the index type, the library either multiplies correctly or ends with a failure, and it never refuses a matrix whose blocks fit, touches memory outside its arrays or returns a wrong y. Dense storage and block grids with more cells than the index type can number are refused.",
 ["inputs","configurations","schedules"],"matrices with up to 131073 rows or columns, partitions and widths around 2^8, 2^16 and the 32-bit limits, all formats with narrow indices and their file readers, team sizes and schedules",
 "The tests use small matrices with 16-bit in-block indices; nothing is ever close to a limit.",
 ["include/generic/gsb.h","include/matrix/coo.1.h","include/matrix/blocks.h","include/matrix/block_csr.h","include/matrix/block_coo.1.h","include/matrix/cswr.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/io/blocked.h"],
 [("constant block sizes are limited by the index type","include/generic/gsb.h"),("positions are checked when they are stored","include/matrix/coo.1.h, include/matrix/blocks.h, include/matrix/block_csr.h, include/matrix/cswr.h")],["y after spmv()","outcome of the construction"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P)); 
for d in P: assert len(d['title'])<=80,d['id']
