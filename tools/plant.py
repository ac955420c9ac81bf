#!/usr/bin/env python3
"""Development tool: plant bugs and see whether the checks catch them. No check uses it.

  plant.py make BATCH.py      make seeded/<id>/ from a batch of edits (list BUGS of dicts)
  plant.py verify ID...       build, stable tests, demo without and with the patch
  plant.py table              rewrite the table of DESIGN.md from seeded/*/meta.json
  plant.py catch ID... [--tier quick]   run the check of the bug's property against a patched copy
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; R = "/repo"; BASE = "5c4e8be"
SCR = "/tmp/plant"

def sh(cmd, cwd=None, env=None, timeout=900, out=False):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return (p.returncode, p.stdout.decode("utf-8", "replace"))

def scratch(name):
    d = os.path.join(SCR, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh("git -C /repo worktree prune")
    subprocess.check_call(["cp", "-a", R, d])
    return d

def scripts(d):
    """Copies of build.sh and the tests that work on a scratch tree."""
    s = d + ".vp"
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    for f in ("build.sh", "test.sh", "run_tests.py", "results.py"):
        t = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp", s)
        open(s + "/" + f, "w").write(t)
    shutil.copy("/opt/vp/BASELINE.json", s)
    return s

def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "stable_tests", "passed", "tests"):
        if isinstance(b.get(k), list): return set(b[k])
    raise SystemExit("BASELINE.json: " + str(list(b)))

def make(batch):
    ns = {}
    exec(compile(open(batch).read(), batch, "exec"), ns)
    ids = []
    for b in ns["BUGS"]:
        d = scratch("mk")
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], f, "matches", t.count(old), "times:", old[:80]); break
            open(p, "w").write(t.replace(old, new))
        else:
            o = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            rc, diff = sh("git diff", cwd=d)
            open(o + "/patch.diff", "w").write(diff)
            # at least one removed line must be of the original repository
            orig = 0
            for f in set(e[0] for e in b["edits"]):
                rc, base = sh("git show %s:%s" % (BASE, f), cwd=d)
                base = set(x.rstrip() for x in base.split("\n"))
                cur = False
                for l in diff.split("\n"):
                    if l.startswith("--- "): cur = l == "--- a/" + f
                    elif cur and l.startswith("-") and l[1:].rstrip() in base and len(l.strip()) > 2: orig += 1
            if not orig: print(b["id"], "WARNING: no original line changed")
            cpp = b.get("cpp")
            if cpp:
                open(o + "/demo.cpp", "w").write(cpp)
                body = '''w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
clang++-18 -O1 -g -std=c++17 -fopenmp %s -Iinclude -Idep "$here/demo.cpp" %s -o "$w/demo" 2>"$w/log" || { cat "$w/log"; exit 2; }
cd "$w"
%s
''' % (b.get("cflags", "-w"), b.get("libs", "lib/common.a"), b.get("run", "timeout 120 ./demo"))
            else:
                body = b["sh"]
            open(o + "/demo.sh", "w").write("#!/bin/bash\nset -u\n" + body)
            os.chmod(o + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            ids.append(b["id"])
    shutil.rmtree(os.path.join(SCR, "mk"), ignore_errors=True)
    return ids

def verify(i):
    o = os.path.join(V, "seeded", i)
    d = scratch("vf-" + i)
    demo = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(o):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(o + "/" + f, demo)
    s = scripts(d)
    env = dict(os.environ); env["LC_ALL"] = "C.UTF-8"
    ok = True
    try:
        rc, t = sh("bash %s/build.sh" % s)
        if rc: print(i, "unpatched build failed", t[-500:]); return False
        rc, t = sh("bash %s/demo.sh" % demo, cwd=d, timeout=300)
        if rc: print(i, "DEMO FAILS UNPATCHED", rc, t[-600:]); ok = False
        rc, t = sh("git apply %s/patch.diff" % o, cwd=d)
        if rc: print(i, "patch does not apply", t); return False
        rc, t = sh("bash %s/build.sh" % s)
        if rc: print(i, "PATCHED BUILD FAILED", t[-800:]); return False
        for k in range(2):
            rc, t = sh("bash %s/test.sh %s/out.json" % (s, s))
            r = json.load(open(s + "/out.json"))
            miss = baseline() - set(r["passed"])
            if miss: print(i, "TESTS FAIL", len(miss), sorted(miss)[:4]); ok = False; break
        n = 0
        for k in range(3):
            rc, t = sh("bash %s/demo.sh" % demo, cwd=d, timeout=300)
            if rc: n += 1
        if n < 3: print(i, "DEMO PASSES PATCHED (%d of 3 fail)" % n, t[-300:]); ok = False
        if rc == 2 and "error:" in t: print(i, "DEMO DOES NOT COMPILE", t[-500:]); ok = False
        if ok: print(i, "ok; demo rc", rc, t.strip().split("\n")[-1][:120])
        return ok
    finally:
        for x in (d, s, demo): shutil.rmtree(x, ignore_errors=True)

def catch(i, tier="quick", prop=None):
    o = os.path.join(V, "seeded", i)
    meta = json.load(open(o + "/meta.json"))
    prop = prop or meta["property"]
    d = scratch("ct-" + i)
    try:
        rc, t = sh("git apply %s/patch.diff" % o, cwd=d)
        if rc: print(i, "patch does not apply", t); return False
        env = dict(os.environ); env["VERIF_REPO"] = d; env["VERIF_SEED"] = "1"; env["VERIF_TIER"] = tier
        rc, t = sh("python3 %s/check.py %s %s" % (V, prop, tier), env=env, timeout=1200)
        v = [l for l in t.split("\n") if l.startswith("VIOLATION")]
        lines = [l for l in t.split("\n") if l.strip()]
        print("%-28s %s rc=%d %s | %s" % (i, prop, rc, "CAUGHT" if rc == 1 and v else "MISSED", " / ".join(lines[-3:])[:300]))
        return rc == 1 and bool(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": print(" ".join(make(a[1])))
    elif a[0] == "verify":
        bad = [i for i in a[1:] if not verify(i)]
        print("bad:", " ".join(bad))
    elif a[0] == "table":
        rows = []
        for i in sorted(os.listdir(V + "/seeded")):
            m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
            rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
        L = open(V + "/DESIGN.md").read().split("\n")
        k = L.index("| planted bug | property | needs |") + 2
        e = k
        while L[e].startswith("| "): e += 1
        L[k:e] = rows
        open(V + "/DESIGN.md", "w").write("\n".join(L))
    elif a[0] == "catch":
        tier = "thorough" if "--thorough" in a else "quick"
        ids = [x for x in a[1:] if not x.startswith("--")]
        if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
        miss = [i for i in ids if not catch(i, tier)]
        print("missed:", " ".join(miss))
