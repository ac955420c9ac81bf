// C20: timings and benchmark reports while the wall clock is stepped.
#include "util.h"
#include "../guest/bench.h"
#include <cstdio>
#include <cstdlib>
using namespace sim; using namespace api;
static int64_t overhead;                          // simulated time spent on reading clocks
static bool steps, long_laps; static std::vector<int64_t> took, wall; static int64_t begun, wbegun; static uint64_t wild; static std::vector<double> laps; static unsigned long lap_nnz; static std::string lap_method;
static int64_t any_duration() { if (long_laps) return (int64_t)range(20, 5000000) * 1000000; static const int64_t s[] = {1000000, 1, 1000, 1000000000, 3600000000000ll}; return (int64_t)range(1, 1000) * s[choose(5)]; }
static void step_wall() {
    if (!steps || choose(3) == 0) return;
    static const int64_t s[] = {1000, 1000000, 1000000000, 60000000000ll, 3600000000000ll, 86400000000000ll}; int64_t d = (int64_t)range(1, 2000) * s[choose(6)]; if (choose(2)) d = -d;
    wall_ns += d; wild++; fault(d < 0 ? "clock_step_back" : "clock_step_forward");
}
static void reading() { int64_t d = choose(4); advance(d); overhead += d; }
static void before() { Host h; int64_t w = wall_ns; step_wall(); begun = mono_ns; wbegun = w; }
static void after() { Host h; advance(any_duration()); step_wall(); took.push_back(mono_ns - begun); wall.push_back(wall_ns - wbegun); }
static void take_laps(const char *m, unsigned long nnz, unsigned long n, const double *t) { Host h; laps.assign(t, t + n); lap_nnz = nnz; lap_method = m; }
static bool near(double got, double lo_ns, double hi_ns, double rel, double abs_s) { double lo = lo_ns * 1e-9, hi = hi_ns * 1e-9; return got >= lo - std::fabs(lo) * rel - abs_s && got <= hi + std::fabs(hi) * rel + abs_s; }
static double mflops_of(uint64_t nnz, double s) { return 2.0 * nnz / (s * 1e6); }
struct Line { double best, median, mean, worst; };
static bool close(double a, double b, double rel, double abs_) { if (std::isinf(b) || b > 1e30) return a > 1e30 || std::isinf(a); return std::fabs(a - b) <= std::fabs(b) * rel + abs_; }
// the statistics the report has to show for these laps
static void check_report(bool csv, const std::string &text, const std::string &method, uint64_t nnz, std::vector<double> t) {
    std::sort(t.begin(), t.end()); size_t n = t.size(); double sum = 0; for (double v : t) sum += v; Line want{t[0], 0, sum / n, t[n - 1]}; double m_lo = t[(n - 1) / 2], m_hi = t[n / 2];
    double rel = 3e-6;
    if (csv) {
        size_t p = text.rfind(method + ","); Line g; if (p == std::string::npos || (p && text[p - 1] != '\n') || sscanf(text.c_str() + p + method.size() + 1, "%lf,%lf,%lf,%lf", &g.best, &g.median, &g.mean, &g.worst) != 4) violate("report", "no csv line for %s in: %s", method.c_str(), text.substr(0, 200).c_str());
        auto bad = [&](const char *w, double got, double lo, double hi) { violate("report", "csv report over %zu laps says %s %.0f MFLOP/s, expected %.3f to %.3f (%llu non-zeros)", n, w, got, lo, hi, (unsigned long long)nnz); };
        auto chk = [&](const char *w, double got, double s) { double f = mflops_of(nnz, s); if (!close(got, f, rel, 0.51)) bad(w, got, f, f); };
        chk("best", g.best, want.best); chk("mean", g.mean, want.mean); chk("worst", g.worst, want.worst);
        double lo = mflops_of(nnz, m_hi), hi = mflops_of(nnz, m_lo); if (!(g.median >= lo - lo * rel - 0.51 && g.median <= hi + hi * rel + 0.51)) bad("median", g.median, lo, hi);
        if (!(g.best >= g.median && g.median >= g.worst)) violate("report", "csv report orders best %.0f, median %.0f, worst %.0f", g.best, g.median, g.worst);
        return;
    }
    Line tm{-1, -1, -1, -1}, fl{-1, -1, -1, -1}; size_t p = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size(); std::string l = text.substr(p, e - p); p = e + 1; bool isf; const char *r;
        if (l.compare(0, 14, "Execution time") == 0) isf = false; else if (l.compare(0, 7, "MFLOP/s") == 0) isf = true; else continue;
        size_t at = l.find(method); size_t colon = l.rfind(": "); if (at == std::string::npos || colon == std::string::npos) continue; r = l.c_str() + colon + 2; double v = atof(r); Line &d = isf ? fl : tm; std::string rest = l.substr(at + method.size(), colon - at - method.size());
        if (rest.find("best") != std::string::npos) d.best = v; else if (rest.find("median") != std::string::npos) d.median = v; else if (rest.find("mean") != std::string::npos) d.mean = v; else if (rest.find("worst") != std::string::npos) d.worst = v;
    }
    auto times = [&](const char *w, double got, double lo, double hi) { if (got < 0 || !(got >= lo - lo * rel - 1.1e-6 && got <= hi + hi * rel + 1.1e-6)) violate("report", "report over %zu laps says %s time %.6f, expected %.9f to %.9f", n, w, got, lo, hi); };
    auto flops = [&](const char *w, double got, double slo, double shi) { double lo = mflops_of(nnz, shi), hi = mflops_of(nnz, slo); if (!(got >= lo - lo * rel - 0.51 && (got <= hi + hi * rel + 0.51))) violate("report", "report over %zu laps says %s %.0f MFLOP/s, expected %.3f to %.3f", n, w, got, lo, hi); };
    times("best", tm.best, want.best, want.best); times("median", tm.median, m_lo, m_hi); times("mean", tm.mean, want.mean, want.mean); times("worst", tm.worst, want.worst, want.worst);
    flops("best", fl.best, want.best, want.best); flops("median", fl.median, m_lo, m_hi); flops("mean", fl.mean, want.mean, want.mean); flops("worst", fl.worst, want.worst, want.worst);
}
static void timer_history() {
    // any history of tick() and tock(): every tock() gives the time since the latest tick()
    uint32_t n = range(2, 12); int64_t mark = 0; bool set = false; int64_t slack = 0;
    for (uint32_t i = 0; i < n; i++) {
        step_wall(); bool do_tick = !set || choose(3) == 2; int64_t o0 = overhead;
        if (do_tick) { guest([&] { t_tick(); }); mark = mono_ns; set = true; slack = 0; }
        else { double d = 0; guest([&] { d = t_tock(); }); double lo = (double)(mono_ns - mark - (overhead - o0) - slack), hi = (double)(mono_ns - mark + slack);
            if (d < 0) violate("duration", "tock() measured %.9f s, the time that passed is %.9f s (%llu clock steps)", d, (mono_ns - mark) * 1e-9, (unsigned long long)wild);
            if (!near(d, lo, hi, 1e-9, 1e-9)) violate("duration", "tock() measured %.9f s, the time that passed is %.9f s (%llu clock steps)", d, (mono_ns - mark) * 1e-9, (unsigned long long)wild); slack += overhead - o0; }
        if (choose(4)) advance(any_duration());
    }
    nontrivial();
}
static void direct() {
    uint32_t n = choose(2) ? range(1, 9) : range(1, 200); Rng g(seed32()); std::vector<double> t; int64_t unit = choose(3) == 2 ? 1000 : 1000000; uint32_t spread = choose(3) ? 50000 : 5; for (uint32_t i = 0; i < n; i++) t.push_back((double)((1 + g.below(spread)) * unit) * 1e-9);
    static const uint64_t nz[] = {1000, 0, 1, 50000000, 3000000000ull}; uint64_t nnz = nz[choose(5)]; bool csv = choose(2); double *p = garray(t); captured().clear();
    guest([&] { report_direct(csv, "Kernel", nnz, n, p); }); check_report(csv, captured(), "Kernel", nnz, t);
    std::vector<double> back(p, p + n), s = t; std::sort(s.begin(), s.end()); std::sort(back.begin(), back.end()); if (back != s) violate("report", "reporting changed the measured times"); nontrivial();
    // the statistics helpers
    double *q = garray(t); double m = 0, md = 0, sd = 0; guest([&] { m = t_stat(0, q, n); sd = t_stat(2, q, n); md = t_stat(1, q, n); });
    double sum = 0; for (double v : t) sum += v; double em = sum / n, ev = 0; for (double v : t) ev += (v - em) * (v - em); ev = std::sqrt(ev / n);
    if (!close(m, em, 1e-9, 1e-15)) violate("report", "mean() of %u values is %g, expected %g", n, m, em); if (!close(sd, ev, 1e-6, 1e-12)) violate("report", "standard_deviation() of %u values is %g, expected %g", n, sd, ev); if (!(md >= s[(n - 1) / 2] - 1e-15 && md <= s[n / 2] + 1e-15)) violate("report", "median() of %u values is %g", n, md);
}
static void c20() {
    wild = 0; overhead = 0; took.clear(); wall.clear(); laps.clear(); long_laps = false; steps = choose(2); on_clock = reading;
    int mode = choose(4);
    if (mode == 0) { timer_history(); return; }
    if (mode == 1) { direct(); return; }
    int report = choose(4); long_laps = report == R_VERBOSE || report == R_CSV; if (report != R_AVG && report != R_CORE && steps) steps = choose(4) == 3;    // reports over wrong laps say nothing more than the laps do
    int fmt = pick_fmt(0, ALL_FMTS); random_schedule_config(); set_workers(any_workers()); if (choose(3)) cfg.preempt = false;
    Matrix m = gen_for_format(fmt, 60, 200); bool st = steps; steps = false; Built b = make_built(fmt, m, cfg.workers); guest([&] { b.m = build_any(b.spec); }); steps = st;
    uint64_t nnz = 0; guest([&] { nnz = b.m->nonzeros(); }); uint32_t it = choose(3) ? range(1, 6) : range(1, 40); captured().clear();
    Counted c{before, after, b.m, m.rows, m.cols, nnz}; double avg = 0; size_t mark = gmark(); uint64_t h0 = ghash_upto(mark, nullptr, 0);
    static const char *const names[] = {"CSR", "GSB", "best", "Mean kernel"}; const char *name = names[choose(4)]; note("%s benchmark over %u laps of %s, clock %s", name, it, fmt_name[fmt], steps ? "stepped" : "steady");
    guest([&] { bench(c, b.dbl, report, it, name, take_laps, &avg); });
    if (ghash_upto(mark, nullptr, 0) != h0) violate("matrix-changed", "a benchmark run changed the matrix");
    if (took.size() < it) violate("count", "a benchmark of %u iterations multiplied %zu times", it, took.size());
    // the timed multiplications are the last ones
    std::vector<int64_t> timed(took.end() - it, took.end()), wtimed(wall.end() - it, wall.end());
    auto clk = [&](double got, double real, double w) { return w != real && near(got, std::min(w, w + (double)overhead), w + (double)overhead, 1e-9, 1e-9) ? "settable-clock" : "duration"; };
    if (report == R_CORE) {
        if (laps.size() != it || lap_nnz != nnz || lap_method != name) violate("count", "a benchmark of %u iterations of %s with %llu non-zeros reported %zu laps of %s with %lu non-zeros", it, name, (unsigned long long)nnz, laps.size(), lap_method.c_str(), lap_nnz);
        for (uint32_t i = 0; i < it; i++) if (!near(laps[i], (double)timed[i], (double)timed[i] + (double)overhead, 1e-9, 1e-9)) violate(clk(laps[i], (double)timed[i], (double)wtimed[i]), "benchmark_spmv_core measured %.9f s for a multiplication of %.9f s (%llu clock steps)", laps[i], timed[i] * 1e-9, (unsigned long long)wild);
    } else if (report == R_AVG) {
        double s = 0, w = 0; for (int64_t v : timed) s += (double)v; for (int64_t v : wtimed) w += (double)v; if (!near(avg, s / it, (s + (double)overhead) / it, 1e-9, 1e-9)) violate(clk(avg * it, s, w), "BENCH_AVG measured %.9f s per multiplication of %.9f s (%llu clock steps)", avg, s / it * 1e-9, (unsigned long long)wild);
    } else if (!wild) {
        std::vector<double> t; for (int64_t v : timed) t.push_back(v * 1e-9);
        check_report(report == R_CSV, captured(), name, nnz, t);
    }
}
static Register r20({"C20", c20, "a run is a history of timer calls, one report over given laps, or one benchmark of one matrix; counted when the clock was stepped, a schedule choice was made or timings were compared; distinct by hash of all events",
    "tick, tock, the benchmark loops and macro, the report printers, the multiplication kernels", "clocks (monotonic and settable), time itself, standard output, OpenMP runtime, memory allocator"});
