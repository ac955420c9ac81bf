"""Which sources decide which property, and how many simulated runs a quick check makes."""
_SC = "workload matrices, team sizes, loop and task schedules, preemption points and stalled workers"
_TR = " Trusts the simulator's OpenMP runtime (written from the specification) and sequentially consistent interleavings; a clean result is evidence over the seeds run, not a proof."
_IO = ["io", "common", "mm_io"]
_IO64 = _IO + ["io@u64"]
PROPS = {
    "C01": dict(guest=["row", "row@u64", "common"], props=["util", "c01"], runs=300000, over=_SC,
        note="Every run multiplies with exact arithmetic and compares y bit for bit with a reference; unordered accesses to y are violations." + _TR),
    "C02": dict(guest=["blk", "blk@u64", "common"], props=["util", "c02"], runs=150000, over=_SC + ", block partitions",
        note="As C01 for blocked formats on the path where block-rows are the unit of parallelism." + _TR),
    "C03": dict(guest=["blk", "blk@u64", "common"], props=["util", "c03"], runs=120000, over=_SC + ", deferred, stolen and inlined tasks, nested teams, worker counts changing between construction and multiplication",
        note="As C01 for block-rows split into task chunks; races on y or the partial results show as wrong sums or unordered accesses." + _TR),
    "C04": dict(guest=["row", "blk", "row@u64", "blk@u64", "common"], props=["util", "c04"], runs=140000, over=_SC,
        note="Every access of the library during a multiplication goes through a bounds, lifetime and happens-before check; all other guest memory is hashed before and after." + _TR),
    "C05": dict(guest=["row", "blk", "sort", "common"], props=["util", "c05"], runs=200000, over="interleavings of several application threads, each with its own OpenMP team",
        note="Every caller's result is compared bit for bit with what it would get alone; races, deadlocks and step-bound overruns are violations." + _TR),
    "C06": dict(guest=["sort", "sort@u64", "common"], props=["util", "c06"], runs=100000, over="arrays, task schedules, nesting and failing scratch allocations",
        note="Order, stability and conservation are checked element by element." + _TR),
    "C07": dict(guest=["row", "blk", "row@u64", "blk@u64", "common"], props=["util", "c07"], runs=120000, over="matrices, dirty memory, failing scratch allocations and conversion schedules",
        note="The target is read back column by column through its own multiplication and compared exactly." + _TR),
    "C08": dict(guest=["part", "common"], props=["util", "c08"], runs=60000, over="matrices, worker counts and construction schedules",
        note="Reads the chunk tables themselves; needs the fields partition[].chunks and blockrow_ptr to exist." + _TR),
    "C09": dict(guest=["sort", "sort@u64", "common", "mm_io", "t_permute", "t_ipermute"], props=["util", "c09", "ptool"], runs=400000, over="permutations, team sizes and schedules",
        note="Every image is compared with its definition; unordered conflicting accesses are violations." + _TR),
    "C10": dict(guest=["sort", "sort@u64", "common"], props=["util", "c09"], runs=400000, over="block sizes, indices, team sizes and schedules",
        note="Every index is compared with its definition; unordered conflicting accesses are violations." + _TR),
    "C21": dict(guest=["row", "blk", "row@u64", "blk@u64", "common"], props=["util", "c21"], runs=60000, over="shapes, worker counts and schedules",
        note="Picked sizes are checked against the stated bounds and every construction with a picked size is multiplied and compared exactly." + _TR),
    "C22": dict(guest=["row", "blk", "row@u64", "blk@u64", "common"], props=["util", "c21"], runs=500000, over=_SC,
        note="Bitwise comparison of repeated multiplications of one matrix object under independent schedules." + _TR),
    "C11": dict(guest=_IO64, props=["util", "iou", "c11"], runs=500000, over="matrices, stale targets, buffer sizes and short transfers",
        note="Every byte of the file is compared with the documented layout; trusts the simulated disk and glibc's stdio."),
    "C12": dict(guest=_IO64, props=["util", "iou", "c12"], runs=300000, over="truncation points, read errors, open failures and writer crashes at any operation",
        note="A claimed success is compared entry by entry with the complete file; trusts the simulated disk and glibc's stdio."),
    "C14": dict(guest=_IO64, props=["util", "iou", "c12"], runs=500000, over="write errors, full disks, failing closes and opens at any operation",
        note="The stored bytes are compared with those of a fault-free run; trusts the simulated disk and glibc's stdio."),
    "C16": dict(guest=_IO64, props=["util", "iou", "c11"], runs=1500000, over="arrays, disagreeing, missing and failing files, short transfers",
        note="Every byte and entry is compared; trusts the simulated disk and glibc's stdio."),
    "C18": dict(guest=_IO64, props=["util", "iou", "c12"], runs=600000, over="storage faults, damaged files and failing allocations at any operation",
        note="Counts handles of the simulated stdio layer after every call that returns; terminating calls are not judged."),
    "C23": dict(guest=_IO, props=["util", "iou", "c11"], runs=300000, over="matrices with any finite values, stale targets, buffer sizes and short transfers",
        note="The text is parsed independently and compared bit for bit; trusts the simulated disk and glibc's stdio."),
    "C13": dict(guest=_IO, props=["util", "iou", "c13"], runs=2500000, over="texts, damage to them, read errors, open failures and short reads at any operation",
        note="The expected entries come from the generator, not from a second parser; damaged texts must be refused; trusts the simulated disk and glibc's number parsing."),
    "C15": dict(guest=_IO64, props=["util", "iou", "c15"], runs=50000, over="matrices, block partitions, short transfers, dirty memory and multiplication schedules",
        note="Every byte of the file is compared, and every loaded matrix is multiplied and compared exactly." + _TR),
    "C17": dict(guest=_IO64, props=["util", "iou", "c15"], runs=700000, over="damage to files of every kind, read errors, short reads and failing allocations",
        note="Every access is bounds- and lifetime-checked; absurd sizes meet an allocator that refuses them; trusts glibc's stdio."),
    "C19": dict(guest=_IO + ["t_convert", "t_convert_blocked", "t_expanded", "t_permute", "t_ipermute", "t_sort", "t_prepare", "t_double2float", "t_one2zero"], props=["util", "iou", "c19"], runs=300000,
        over="crash points with torn writes, write, read, open and close errors, full disks, inputs and schedules",
        note="Outputs are compared with what the inputs define; after a crash the library's own readers judge what is left. Process crashes are modelled, not lost operating system caches." + _TR),
    "C20": dict(guest=["bench", "row", "blk", "common"], props=["util", "c20"], runs=800000, over="steps of the wall clock, durations, histories of timer calls, schedules",
        note="Simulated time is known exactly, so every duration has one right value. Open finding: the benchmark headers still measure with a settable clock." ),
    "C26": dict(guest=["common", "mm_io", "d_csr", "d_csr2", "d_cswr", "d_csbr", "d_csbr2", "d_cgbr", "d_cgbr2", "d_bench", "d_pbench"] + ["io", "row", "blk"], props=["util", "iou", "c26"], runs=300000,
        over="matrix files, block sizes, permutations, damage to them, read and open errors, worker counts and schedules",
        note="Simulated time makes the printed rates exact, so they show how many entries were multiplied." + _TR),
    "C27": dict(guest=["row", "blk", "common"], props=["util", "c27"], runs=300000, over="histories of conversions, multiplications and releases, dirty memory and schedules",
        note="Every matrix alive is multiplied and compared exactly after the others changed; freed memory is never handed out again, so stale uses are seen." + _TR),
    "C29": dict(guest=["row", "blk", "row@u64", "blk@u64", "io", "common", "mm_io"], props=["util", "iou", "c29"], runs=70000, over="matrices, block partitions and widths around the limits of the index types, block sizes chosen by the library, schedules",
        note="What is built is multiplied and compared exactly; a refusal is accepted only when an index really cannot be represented." + _TR),
    "C28": dict(guest=["row", "blk", "sort", "io", "common", "mm_io"], props=["util", "iou", "c28"], runs=100000, over="schedules, team sizes, failing scratch allocations, matrix files and repetition counts",
        note="Counts the live blocks of the simulated heap; memory kept for reuse is allowed as long as it does not grow with every repetition." + _TR),
}
