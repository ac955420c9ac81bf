#!/usr/bin/env python3
"""Self-test of the simulator: the seams that code of /repo does not use today but may use after a change."""
import os, subprocess, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
out = os.path.join(check.BUILD, "selftest")
bad = 0
check.PROPS["SELF"] = dict(guest=["selftest", "common"], props=["util", "self"], runs=0)
exe = check.build("SELF", out)
for name, want in (("SELF", False), ("SELFFAULT", False), ("SELFRACE", True)) + tuple(("SELFORDER%d" % k, True) for k in range(5)):
    r = subprocess.run([exe, "--prop", name, "--seed", "1", "--runs", "3000", "--budget", "30"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode("utf-8", "replace")
    v = [json.loads(l[5:]) for l in r.splitlines() if l.startswith("VIOL ")]; st = [json.loads(l[5:]) for l in r.splitlines() if l.startswith("STAT ")]
    other = [l for l in r.splitlines() if not l.startswith(("VIOL ", "STAT "))]
    ok = bool(st) and bool(v) == want and not other
    print(name, "ok" if ok else "FAILED", st[0]["runs"] if st else r[-300:], st[0]["faults"] if st else "", [(x["class"], x["message"]) for x in v][:3], other[:2]); bad |= not ok
subprocess.run(["rm", "-rf", out]); sys.exit(bad)
