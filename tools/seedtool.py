#!/usr/bin/env python3
"""Create / verify planted bugs. Works on a scratch copy (/tmp/sw) that is bind-mounted over /repo inside a
private user+mount namespace, so the real /repo is never touched.
  seedtool.py verify ID...   demo on clean/patched, stable tests, and the property's quick check"""
import os, sys, json, subprocess, shutil, re
SW = os.environ.get("SEED_SW", "/tmp/sw")
SRC = os.environ.get("SEED_SRC", "/repo")
SEED = "/verif/seeded"
VF = os.environ.get("SEED_VERIF", "/verif")  # a copy, to verify several at once
BASE = "f3b4716"
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
clang++ -std=c++20 -O1 -w %s -I"$PWD" -include optional -include iostream "$D/demo.cpp" %s -o "$T/demo" || exit 2
timeout 120 "$T/demo"
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def reset():
    if not os.path.isdir(SW):
        sh("cp -a %s %s" % (SRC, SW))
    r = sh("cd %s && git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD && git status --short" % (SW, SRC))
    assert r.returncode == 0, r.stdout

def inns(cmd, timeout=1800):
    return sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && %s'" % (SW, cmd), timeout=timeout)

def demo(i):
    r = inns("timeout 300 bash %s/%s/demo.sh" % (SEED, i))
    return r.returncode, r.stdout[-400:]

def seed(i, prop, edits, demo_cpp, needs, breaks, flags="", libs=""):
    """edits: list of (file, old, new)"""
    reset()
    for f, a, b in edits:
        p = os.path.join(SW, f)
        s = open(p, newline="").read()
        if "\r\n" in s: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert s.count(a) == 1, (i, f, a, s.count(a))
        open(p, "w", newline="").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", SW, "diff"], stdout=subprocess.PIPE).stdout.decode()
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline="").write(diff)
    open(d + "/demo.cpp", "w").write(demo_cpp)
    open(d + "/demo.sh", "w").write(DEMO % (flags, libs))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # removed lines must be original
    for f in set(e[0] for e in edits):
        base = sh("cd %s && git show %s:%s" % (SW, BASE, f)).stdout.split("\n")
        cur = None
        for l in diff.split("\n"):
            if l.startswith("--- "): cur = l[6:]
            elif l.startswith("-") and cur == f and l[1:].strip() and l[1:].rstrip("\r") not in base:
                print("   WARNING", i, "changes a non-original line:", l)
    c2 = demo(i)
    reset()
    c1 = demo(i)
    ok = c1[0] == 0 and c2[0] != 0
    print("%s demo clean=%d patched=%d %s" % (i, c1[0], c2[0], "" if ok else "BAD " + c1[1] + c2[1]), flush=True)
    return ok

def verify(i, tests=True, check=True):
    meta = json.load(open("%s/%s/meta.json" % (SEED, i)))
    reset()
    c1 = demo(i)
    r = sh("cd %s && git apply %s/%s/patch.diff" % (SW, SEED, i))
    if r.returncode: print(i, "patch does not apply", r.stdout); return
    c2 = demo(i)
    msg = "%s[%s] demo %d/%d" % (i, meta["property"], c1[0], c2[0])
    if tests:
        inns("bash /opt/vp/test.sh %s.seed_o.json" % SW)
        o = json.load(open("%s.seed_o.json" % SW))
        b = json.load(open("/opt/vp/BASELINE.json"))
        stable = b.get("stable") or b.get("passed") or b.get("tests")
        miss = [t for t in stable if t not in o["passed"]] if isinstance(stable, list) else ["?"]
        msg += " tests %s" % ("ok" if not miss else "FAIL %s" % miss[:3])
    if check:
        r = inns("cd %s && VERIF_SEED=1 python3 mc/check.py %s quick" % (VF, meta["property"]))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        msg += " check rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "*** MISSED " + r.stdout[-300:])
    print(msg, flush=True)
    reset()

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "verify":
        ids = [x for x in a[1:] if not x.startswith("-")] or sorted(x for x in os.listdir(SEED) if os.path.isdir(SEED + "/" + x))
        for i in ids:
            verify(i, tests="--notests" not in a, check="--nocheck" not in a)
