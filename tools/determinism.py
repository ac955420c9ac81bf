#!/usr/bin/env python3
"""Runs the same seeds in separate processes, in different groupings, and compares the hash of every run.

A difference means that some source of nondeterminism is not behind the simulator (or that a run leaves state behind)."""
import subprocess, sys, os, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
from config import PROPS
def hashes(exe, pid, seed, start, stride, runs, known):
    k = [x for s in known for x in ("--known", s)]
    out = subprocess.run([exe, "--prop", pid, "--seed", str(seed), "--start", str(start), "--stride", str(stride), "--runs", str(runs), "--hashes", "1"] + k,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode("utf-8", "replace")
    if "HASHES\n" not in out: raise SystemExit("%s: no hashes: %s" % (pid, out[-300:]))
    return dict(l.split() for l in out.split("HASHES\n")[1].splitlines())
def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 3000; ids = sys.argv[2:] or sorted(PROPS); bad = 0
    for pid in ids:
        d = os.path.join(check.BUILD, "det-" + pid); exe = check.build(pid, d)
        known = ["%s|%s" % (c, m) for c, m, _ in check.known_findings(pid)]
        with cf.ThreadPoolExecutor(8) as ex:
            a = [ex.submit(hashes, exe, pid, 9, s, 3, runs, known) for s in range(3)]; b = [ex.submit(hashes, exe, pid, 9, s, 5, runs, known) for s in range(5)]
            A = {}; B = {}
            for f in a: A.update(f.result())
            for f in b: B.update(f.result())
        diff = [i for i in A if A[i] != B.get(i)]
        print("%s %d runs compared, %d differ%s" % (pid, len(A), len(diff), " first: " + diff[0] if diff else "")); bad += bool(diff)
    return 1 if bad else 0
sys.exit(main())
