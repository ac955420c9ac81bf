#!/usr/bin/env python3
"""Build the simulator from /repo's working tree, run one property's seeded search.

  check.py ID                    run the check (tier from VERIF_TIER or the 2nd argument)
  check.py ID --replay FILE      replay a recorded choice sequence and print what it shows
  check.py --setup               build the parts that do not depend on /repo
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import sys, os, subprocess, json, time, hashlib, re, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX, CC = "clang++-18", "clang-18"
WRAP = ("malloc calloc realloc free aligned_alloc posix_memalign __stack_chk_fail rand srand random srandom drand48 fopen fopen64 fclose "
        "fread fwrite fseek fseeko fseeko64 ftell ftello ftello64 rewind fflush feof ferror clearerr fgetc getc ungetc fgets fputs fputc putc "
        "vfprintf fprintf setvbuf setbuf fileno vfscanf fscanf __isoc99_fscanf __isoc23_fscanf getline printf vprintf puts putchar perror "
        "remove unlink rename mkdir rmdir access stat system exit _Exit abort __assert_fail clock_gettime gettimeofday time clock usleep sleep "
        "nanosleep fsync fdatasync pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock "
        "lstat fstat truncate ftruncate open creat read write lseek close fdopen strdup strndup vasprintf asprintf sched_yield pthread_once __once_proxy "
        "pthread_create pthread_join pthread_detach pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast "
        "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE _ZNSt6thread4joinEv _ZNSt6thread6detachEv "
        "_ZNSt6thread20hardware_concurrencyEv _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv "
        "_ZNSt18condition_variable10notify_allEv _ZNSi4readEPcl _ZNSo5writeEPKcl").split() + [
        "_ZNSt10filesystem" + f for f in (
            "6statusERKNS_7__cxx114pathE 6statusERKNS_7__cxx114pathERSt10error_code 9file_sizeERKNS_7__cxx114pathERSt10error_code 9file_sizeERKNS_7__cxx114pathE "
            "16create_directoryERKNS_7__cxx114pathERSt10error_code 16create_directoryERKNS_7__cxx114pathE 18create_directoriesERKNS_7__cxx114pathERSt10error_code "
            "18create_directoriesERKNS_7__cxx114pathE 10remove_allERKNS_7__cxx114pathERSt10error_code 10remove_allERKNS_7__cxx114pathE "
            "6removeERKNS_7__cxx114pathERSt10error_code 6removeERKNS_7__cxx114pathE 6renameERKNS_7__cxx114pathES3_RSt10error_code 6renameERKNS_7__cxx114pathES3_ "
            "11resize_fileERKNS_7__cxx114pathEmRSt10error_code 11resize_fileERKNS_7__cxx114pathEm").split()]
HOSTF = ["-O2", "-g", "-std=c++17", "-fno-rtti", "-fno-exceptions"] + ["-D__real_%s=%s" % (s, s) for s in WRAP]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/dep"]
GUESTF = ["-O1", "-g", "-fopenmp", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard", "-fstack-protector-all", "-ftrivial-auto-var-init=pattern", "-femulated-tls", "-w"] + INC
GUESTXX = ["-std=c++17"]
INDEX = {"u64": "uint64_t"}
SIM = ["core", "mem", "omp", "vfs", "throw"]
sys.path.insert(0, VERIF)
from config import PROPS  # noqa: E402

# library and tool sources of /repo that are linked as they are
REPO_TU = {
    "common": ("src/common.cpp", []),
    "mm_io": ("dep/mm_io/mm_io.c", []),
    "t_convert": ("src/tools/convert.cpp", ["-Dmain=tool_convert_main"]),
    "t_convert_blocked": ("src/tools/convert_blocked.cpp", ["-Dmain=tool_convert_blocked_main"]),
    "t_expanded": ("src/tools/expanded.cpp", ["-Dmain=tool_expanded_main"]),
    "t_permute": ("src/tools/permute.cpp", ["-Dmain=tool_permute_main"]),
    "t_ipermute": ("src/tools/permute.cpp", ["-Dmain=tool_ipermute_main", "-DINVPERM"]),
    "t_sort": ("src/tools/sort.cpp", ["-Dmain=tool_sort_main"]),
    "t_prepare": ("src/tools/prepare.cpp", ["-Dmain=tool_prepare_main"]),
    "t_double2float": ("src/tools/double2float.c", ["-Dmain=tool_double2float_main"]),
    "t_one2zero": ("src/tools/one2zero.c", ["-Dmain=tool_one2zero_main"]),
    "d_csr": ("src/drivers/csr.cpp", ["-Dmain=drv_csr_main", "-DITERATIONS=3", "-DMATRIXTYPE=Csr<float,uint32_t>", "-DVALTYPE=float", "-DITYPE=uint32_t"]),
    "d_csr2": ("src/drivers/csr.cpp", ["-Dmain=drv_csr2_main", "-DITERATIONS=3", "-DMATRIXTYPE=Csr2<float,uint32_t>", "-DVALTYPE=float", "-DITYPE=uint32_t"]),
    "d_cswr": ("src/drivers/cswr.cpp", ["-Dmain=drv_cswr_main", "-DITERATIONS=3", "-DMATRIXTYPE=Cswr<float,uint32_t,uint8_t>", "-DVALTYPE=float", "-DITYPE=uint32_t"]),
    "d_bench": ("src/drivers/bench.cpp", ["-Dmain=drv_bench_main", "-DITERATIONS=3", "-DVALTYPE=float", "-DINDEXTYPE=uint32_t", "-DSINDEXTYPE=uint16_t"]),
    "d_pbench": ("src/drivers/pbench.cpp", ["-Dmain=drv_pbench_main", "-DITERATIONS=3", "-DVALTYPE=float", "-DINDEXTYPE=uint32_t", "-DSINDEXTYPE=uint16_t"]),
}

for _n, _m in (("csbr", "Csbr<float,uint32_t>"), ("csbr2", "Csbr2<float,uint32_t>"), ("cgbr", "Cgbr<float,uint32_t,uint16_t>"), ("cgbr2", "Cgbr2<float,uint32_t,uint16_t>")):
    REPO_TU["d_" + _n] = ("src/drivers/blocked.cpp", ["-Dmain=drv_%s_main" % _n, "-DITERATIONS=3", "-DMATRIXTYPE=" + _m, "-DVALTYPE=float", "-DITYPE=uint32_t"])


class CheckError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd[:3] + ["..."] + cmd[-3:]), p.stdout[-4000:]))
    return p.stdout


def host_obj(src):
    """Host objects depend on /verif only; they are cached by content."""
    h = hashlib.sha256()
    for d in ("sim", "props", "guest"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            if f.endswith(".h"):
                h.update(open(os.path.join(VERIF, d, f), "rb").read())
    flags = HOSTF + (["-fexceptions"] if src.endswith("/throw.cpp") else [])
    h.update(open(src, "rb").read()); h.update(" ".join(flags).encode())
    out = os.path.join(BUILD, "host", os.path.basename(src) + "-" + h.hexdigest()[:16] + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        run([CXX] + flags + ["-c", src, "-o", tmp]); os.rename(tmp, out)
    return out


def guest_obj(name, outdir):
    out = os.path.join(outdir, "g_" + name + ".o")
    extra = []
    if name in REPO_TU:
        src, extra = REPO_TU[name]
        src = os.path.join(REPO, src)
    elif "@" in name:                   # the same adapter instantiated with another index type
        base, t = name.split("@")
        src = os.path.join(VERIF, "guest", base + ".cpp")
        extra = ["-DINDEX_T=" + INDEX[t]] + ["-D%s=%s_%s" % (m, m.lower(), t) for m in ("BUILD_ROW", "BUILD_BLK", "PICK")]
    else:
        src = os.path.join(VERIF, "guest", name + ".cpp")
    if src.endswith(".c"):
        cmd = [CC, "-std=gnu11"] + GUESTF
    else:
        cmd = [CXX] + GUESTF + GUESTXX
    run(cmd + extra + ["-c", src, "-o", out])
    redefine = []
    for s in WRAP:
        redefine += ["--redefine-sym", "%s=__wrap_%s" % (s, s)]
    run(["objcopy"] + redefine + [out])
    return out


def build(pid, outdir):
    p = PROPS[pid]
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "host"), exist_ok=True)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        g = [ex.submit(guest_obj, n, outdir) for n in p["guest"]]
        h = [ex.submit(host_obj, os.path.join(VERIF, "props", n + ".cpp")) for n in p["props"]]
        h += [ex.submit(host_obj, os.path.join(VERIF, "sim", n + ".cpp")) for n in SIM]
        gs = [f.result() for f in g]; hs = [f.result() for f in h]
        gb, ge = (host_obj(os.path.join(VERIF, "sim", n + ".cpp")) for n in ("gbegin", "gend"))
    exe = os.path.join(outdir, "sim")
    # guest objects first: their instrumented template instantiations win, and their data is contiguous
    run([CXX, "-no-pie", "-static-libstdc++", gb] + gs + [ge] + hs + ["-o", exe])
    return exe


def worker(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -99, ""


def replay(exe, pid, path, timeout=120):
    rc, out = worker(exe, ["--prop", pid, "--replay", path], timeout)
    if rc != 0:
        raise CheckError("replay of %s ended with %s: %s" % (path, rc, out[-500:]))
    return json.loads(out)


def known_findings(pid):
    """Open findings: lines 'known: property=ID class=CLS match=REGEX :: what fails'."""
    res = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)", line)
        if m and m.group(1) == pid:
            res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(os.path.join(BUILD, "host"), exist_ok=True)
        names = sorted({n for p in PROPS.values() for n in p["props"]})
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            fs = [ex.submit(host_obj, os.path.join(VERIF, "props", n + ".cpp")) for n in names]
            fs += [ex.submit(host_obj, os.path.join(VERIF, "sim", n + ".cpp")) for n in SIM]
            fs += [ex.submit(host_obj, os.path.join(VERIF, "sim", n + ".cpp")) for n in ("gbegin", "gend")]
            for f in fs: f.result()
        print("setup ok"); return 0
    pid = a[0]
    p = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "")
    if len(a) > 1 and a[1] in ("quick", "thorough"): tier = a[1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    outdir = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    try:
        exe = build(pid, outdir)
        if "--replay" in a:
            r = replay(exe, pid, a[a.index("--replay") + 1])
            print(json.dumps({k: r[k] for k in ("property", "violated", "class", "message", "hash", "steps", "switches", "faults", "trace")}, indent=1))
            if r["violated"]: print("VIOLATION property=%s replay=%s" % (pid, a[a.index("--replay") + 1])); return 1
            return 0
        return search(pid, p, tier, seed, exe, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def search(pid, p, tier, seed, exe, t0):
    ncpu = min(8, os.cpu_count() or 8)
    runs = p["runs"] if tier == "quick" else p.get("thorough", p["runs"] * 40)
    budget = (45 if tier == "quick" else 600)
    build_s = time.time() - t0
    args = lambda k: ["--prop", pid, "--seed", str(seed), "--start", str(k), "--stride", str(ncpu), "--runs", str(runs), "--budget", str(budget)]
    kf = known_findings(pid)
    ts = time.time()
    with cf.ThreadPoolExecutor(ncpu) as ex:
        outs = list(ex.map(lambda k: worker(exe, args(k) + sum([["--known", "%s|%s" % (c, r)] for c, r, _ in kf], []), budget * 2 + 120), range(ncpu)))
    search_s = time.time() - ts
    stats, viols, dead = [], [], []
    for k, (rc, out) in enumerate(outs):
        ok = False
        for line in out.splitlines():
            if line.startswith("STAT "): stats.append(json.loads(line[5:])); ok = True
            elif line.startswith("VIOL "): viols.append(json.loads(line[5:]))
        if rc != 0 or not ok:
            dead.append("worker %d ended with status %s: %s" % (k, rc, out[-1500:]))
    if dead and not (viols and stats): raise CheckError(dead[0])       # a violation found by another worker still counts: it has to replay
    viols.sort(key=lambda v: v["run"])
    replays = []
    if viols:
        rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
        classes = {}
        for v in viols: classes.setdefault(v["class"], v)
        def confirm(v):                        # the violation again from its seed, from its choices, and from fewer choices
            if v["class"] in ("host-crash", "harness-limit"):
                raise CheckError("harness failure: %s %s" % (v["class"], v["message"]))
            path = os.path.join(rdir, "%s-seed%d-run%d.json" % (pid, seed, v["run"]))
            # gate 1: the same seed again, in a fresh process, is the same execution
            rc, out = worker(exe, ["--prop", pid, "--seed", str(seed), "--start", str(v["run"]), "--stride", "1", "--runs", str(v["run"] + 1)], 300)
            again = [json.loads(l[5:]) for l in out.splitlines() if l.startswith("VIOL ")]
            if not again or again[0]["hash"] != v["hash"]:
                raise CheckError("run %d did not repeat exactly (%s)" % (v["run"], v["message"]))
            json.dump(v, open(path, "w"))
            # gate 2: the recorded choices alone give the same execution
            r = replay(exe, pid, path)
            if not r["violated"] or r["hash"] != v["hash"]:
                raise CheckError("recorded choices of run %d do not replay (%s / %s)" % (v["run"], v["message"], r["message"]))
            # minimise
            rc, out = worker(exe, ["--prop", pid, "--minimise", path, "--class", v["class"], "--budget", "20" if tier == "quick" else "90"], 300)
            final = v
            if rc == 0 and out.strip():
                mpath = path + ".min"
                json.dump({"choices": json.loads(out)["choices"]}, open(mpath, "w"))
                r = replay(exe, pid, mpath)
                if r["violated"] and r["class"] == v["class"]:
                    final = r; final["seed"] = seed; final["run"] = v["run"]; final["original_choices"] = len(v["choices"])
                os.unlink(mpath)
            json.dump(final, open(path, "w"), indent=None)
            r1, r2 = replay(exe, pid, path), replay(exe, pid, path)
            if not (r1["violated"] and r1["hash"] == r2["hash"] == final["hash"]):
                raise CheckError("minimised replay is not stable")
            print("%s: %s" % (final["class"], final["message"]))
            for t in final.get("trace", [])[:20]: print("   " + t)
            print("   seed %d run %d, %d choices (%d before minimising), %d steps, %d context switches" % (seed, v["run"], len(final["choices"]), len(v["choices"]), final["steps"], final["switches"]))
            return path
        failed = []
        for v in list(classes.values()):
            if len(replays) == 2: break
            try: replays.append(confirm(v))
            except CheckError as e: failed.append(e)
        if not replays: raise failed[0]
    tot = lambda k: sum(s[k] for s in stats)
    merge = lambda k: {n: sum(s[k].get(n, 0) for s in stats) for n in sorted({n for s in stats for n in s[k]})}
    known_hits = merge("known") if stats and "known" in stats[0] else {}
    n = tot("runs")
    samples = [x for s in stats for x in s["samples"]][:4] or [x for s in stats for x in s["samples"]]
    for s in samples: s["choices"] = s["choices"][:200]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": tot("nontrivial_distinct"), "rule": stats[0]["rule"], "samples": samples or ["no non-trivial run short enough to print"],
            "simulated_runs": n, "seeds_per_hour": int(n / max(search_s, 0.01) * 3600), "simulated_seconds": round(tot("sim_ns") * 1e-9, 6),
            "simulated_time_note": "simulated clock advances plus one nanosecond per instrumented memory access",
            "distinct_interleavings": tot("distinct_schedules"), "distinct_measure": "hash of the sequence of scheduling decisions, per worker process",
            "context_switches": tot("switches"), "instrumented_memory_accesses": tot("accesses"),
            "library_edges_reached": max(s["cov"][0] for s in stats), "library_edges_total": stats[0]["cov"][1],
            "faults_injected": merge("faults"), "rare_conditions": merge("probes"),
            "real_components": stats[0]["real"], "stubbed_components": stats[0]["stub"], "build_s": round(build_s, 1),
            "violating_replays": replays,
        },
        "assumptions": ["sequentially consistent interleavings at instrumented accesses", "simulated OpenMP runtime follows the OpenMP specification", "clang -O1 code is representative of the shipped build"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for c, r, what in kf:
        if known_hits.get("%s|%s" % (c, r)): print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s: %d runs, %d distinct non-trivial, %d interleavings, %.1fs search, %.1fs build, faults %s" % (pid, tier, n, ev["coverage"]["distinct_nontrivial"], ev["coverage"]["distinct_interleavings"], search_s, build_s, json.dumps(ev["coverage"]["faults_injected"])))
    if ev["coverage"]["rare_conditions"]: print("   reached: " + json.dumps(ev["coverage"]["rare_conditions"]))
    if replays:
        for r in replays: print("VIOLATION property=%s replay=%s" % (pid, r))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e); sys.exit(2)
