// Checks of the simulator itself: seams that library code could use (tools/selftest.py).
#include "util.h"
namespace selft { int streams(const int *, int, int *); int text(int); int posix(const char *); int paths(); long threads(int); long racy(int); long handover(int), handover_omp(int); void say(int); long local_scratch(int); }
using namespace sim;
static void want(bool ok, const char *what, long got) { if (!ok) violate("selftest", "%s: %ld", what, got); }
static void self() {
    random_schedule_config(); set_workers(1 + choose(6)); cfg.race = RACE_ALL;
    io_reset(); io.short_ops = choose(2); io.random_buf = choose(2);
    int n = 1 + choose(5000); std::vector<int> d(n); for (int &v : d) v = (int)seed32(); int *g = garray(d), *b = garray(std::vector<int>(n)); int r = 0; long l = 0;
    guest([&] { r = selft::streams(g, n, b); }); want(r == 0 && !memcmp(g, b, n * 4), "streams", r);
    want(fs()["/d/a.bin"].size() == (size_t)n * 4 + 4, "file size", fs()["/d/a.bin"].size());
    guest([&] { r = selft::text(n % 300); }); want(r == 0, "text", r);
    guest([&] { r = selft::posix("hello, descriptors\nand more"); }); want(r == 0, "posix", r);
    guest([&] { r = selft::paths(); }); want(r == 0, "paths", r);
    int k = 1 + choose(5); guest([&] { l = selft::threads(k); }); want(l == k * (k - 1) / 2, "threads", l);
    captured().clear(); guest([&] { selft::say(5); }); want(captured() == "value 5\nerr\nmore\n", "output", captured().size());
    guest([&] { l = selft::local_scratch(k * 3); }); want(l == 4l * (3 * k) * (3 * k - 1) / 2, "scratch", l);
    int way = choose(7); guest([&] { l = selft::handover(way); }); want(l == 42, "handover", l);
    way = choose(2); guest([&] { l = selft::handover_omp(way); }); want(l == 42, "handover with OpenMP", l);
    want(open_handles() == 0, "handles", open_handles()); nontrivial();
}
static void selforder(int way) { random_schedule_config(); set_workers(2); cfg.race = RACE_ALL; long l; guest([&] { l = selft::handover(way); }); nontrivial(); }
static void order0() { selforder(10); } static void order1() { selforder(11); } static void order2() { selforder(12); } static void order3() { selforder(13); } static void order4() { selforder(14); }
static void selffault() {       // every reported success is one
    random_schedule_config(); set_workers(1); static const IoKind ks[] = {IO_OPEN_FAIL, IO_READ_ERR, IO_WRITE_ERR, IO_NOSPACE, IO_CLOSE_FAIL};
    int n = 1 + choose(5000); std::vector<int> d(n, 5); int *g = garray(d), *b = garray(std::vector<int>(n)); int r = 0; int which = choose(3);
    io_reset(); io.kind = ks[choose(5)]; io.at = choose(12); io.sticky = choose(2); if (io.kind == IO_NOSPACE) io.space = choose(n * 4);
    guest([&] { r = which == 0 ? selft::streams(g, n, b) : which == 1 ? selft::text(n % 300) : selft::posix("hello, descriptors\nand more"); });
    if (iostat.fired && io.sticky && r == 0 && (iostat.nospace || iostat.write_err)) violate("selftest", "a write error went unnoticed (%d)", which);
    if (!iostat.fired && r != 0) violate("selftest", "failure %d without a fault (%d)", r, which);
    want(open_handles() == 0, "handles", open_handles()); if (iostat.fired) nontrivial();
}
static void selfrace() { random_schedule_config(); set_workers(2); cfg.race = RACE_ALL; long l; guest([&] { l = selft::racy(3); }); nontrivial(); }
static Register r1({"SELF", self, "streams, descriptors, paths, threads and thread-local scratch behave as documented", "-", "-"});
static Register r2({"SELFFAULT", selffault, "injected faults reach C++ streams and descriptors", "-", "-"});
static Register r3({"SELFRACE", selfrace, "an unordered access between two std::threads is reported", "-", "-"});
static Register o0({"SELFORDER0", order0, "a value published through a relaxed store is reported", "-", "-"});
static Register o1({"SELFORDER1", order1, "a fence on the reading side alone is reported", "-", "-"});
static Register o2({"SELFORDER2", order2, "a value read after a relaxed load is reported", "-", "-"});
static Register o3({"SELFORDER3", order3, "a relaxed store after the release one is reported", "-", "-"});
static Register o4({"SELFORDER4", order4, "an atomic update against a plain one is reported", "-", "-"});
