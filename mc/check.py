#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] [--replay FILE]

Builds the harnesses of one property against /repo's working tree, runs every
unit x shard, merges what was explored, writes evidence/<ID>.json and exits 0
(held on everything explored) or 1 (VIOLATION line)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GEOMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++"
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

BASE = ["-std=c++20", "-g1", "-w", "-ferror-limit=8", "-fno-caret-diagnostics",
        "-I" + REPO, "-I" + HERE, "-include", "optional", "-include", "iostream"]
SAN = {
    "none": ["-O1"],
    "fast": ["-O2"],
    "o0": ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["-O1", "-fsanitize=address,bounds,null,return,bool,integer-divide-by-zero,alignment,unreachable",
              "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_odr_violation=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
for k in ("CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH"):
    ENV.pop(k, None)


def die(msg):
    print("check.py: error: " + msg, file=sys.stderr)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "geomc"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".cpp", ".hpp", ".inl")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fp:
                    h.update(fp.read())
    for d in (HERE,):
        for f in sorted(os.listdir(d)):
            if f.endswith(".h"):
                with open(os.path.join(d, f), "rb") as fp:
                    h.update(f.encode() + b"\0" + fp.read())
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".h"):
            with open(os.path.join(hd, f), "rb") as fp:
                h.update(f.encode() + b"\0" + fp.read())
    return h.hexdigest()


class CompileError(Exception):
    pass


def errs(out):
    L = out.splitlines()
    keep = []
    for i, l in enumerate(L):
        if "error:" in l:
            keep += [l] + [x for x in L[i + 1:i + 6] if VERIF in x or REPO in x]
    return "\n".join(keep)[:6000] or out[:6000]


def run_cc(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, errors="replace")
    with open(log, "w") as fp:
        fp.write(" ".join(cmd) + "\n" + p.stdout)
    if p.returncode != 0:
        if "error:" in p.stdout and "unable to execute command" not in p.stdout and "No space left" not in p.stdout:
            raise CompileError(errs(p.stdout))
        # killed / environmental: retry once, then give up
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, errors="replace")
        if p.returncode != 0:
            if "error:" in p.stdout:
                raise CompileError(errs(p.stdout))
            die("compiler failed: " + p.stdout[-2000:])


def build_unit(pid, name, unit, th):
    src = os.path.join(VERIF, "harness", unit["src"])
    flags = BASE + SAN[unit.get("san", "ubsan")] + ["-I" + os.path.join(VERIF, "harness")] + \
        ["-D" + d for d in unit.get("defs", [])] + unit.get("flags", [])
    with open(src, "rb") as fp:
        key = hashlib.sha256(th.encode() + fp.read() + "\0".join(flags).encode() + str(unit.get("libs", False)).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    name = os.path.splitext(unit["src"])[0] + "".join("-" + x for x in unit.get("defs", [])).replace("=", "")
    exe = os.path.join(d, "%s-%s-%s" % (pid, name, key))
    if os.path.exists(exe):
        return exe
    log = exe + ".log"
    tmp = exe + ".tmp%d" % os.getpid()
    srcs = [src]
    if unit.get("libs"):
        for root, dirs, files in os.walk(os.path.join(REPO, "geomc")):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    srcs.append(os.path.join(root, f))
    run_cc([CXX] + flags + srcs + ["-o", tmp, "-lpthread"], log)
    # drop stale binaries of this unit
    for f in os.listdir(d):
        if re.fullmatch(re.escape("%s-%s-" % (pid, name)) + r"[0-9a-f]{20}(\.log)?", f) and not f.startswith(os.path.basename(exe)):
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass
    os.rename(tmp, exe)
    return exe


def read_status(path):
    try:
        with open(path, "rb") as fp:
            b = fp.read()
        counter, idx = struct.unpack_from("QQ", b, 0)
        grp = b[16:144].split(b"\0")[0].decode("latin1")
        desc = b[144:].split(b"\0")[0].decode("latin1")
        return counter, grp, idx, desc
    except Exception:
        return 0, "", 0, ""


def run_one(pid, name, unit, exe, tier, shard, nshards, seed, workdir, timeout, replay=None):
    tag = "%s-%d" % (name, shard) + ("-r" if replay else "")
    out = os.path.join(workdir, tag + ".json")
    status = os.path.join(workdir, tag + ".status")
    for f in (out, status):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--tier", tier, "--shard", str(shard), "--nshards", str(nshards), "--out", out,
           "--status", status, "--seed", str(seed)]
    if unit.get("part"):
        cmd += ["--part", unit["part"]]
    if replay:
        cmd += ["--rgroup", replay["group"], "--ridx", str(replay["idx"])]
        if replay.get("history"):
            cmd += ["--rhistory", replay["history"]]
    errf = os.path.join(workdir, tag + ".err")
    rc = None
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=ENV, cwd=workdir)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    with open(errf, "rb") as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 200000))
        err = ef.read().decode("utf8", "replace")
    res = None
    if os.path.exists(out):
        with open(out) as fp:
            res = json.load(fp)
    return dict(unit=name, shard=shard, rc=rc, res=res, err=err, status=read_status(status), cmd=cmd)


def crash_key(err):
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1).lower()))[:50].strip("-")
    return "crash"


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        return json.load(fp).get("findings", [])


def main():
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        with open(args[i + 1]) as fp:
            replay = json.load(fp)
        del args[i:i + 2]
        if not args:
            args = [replay["property"]]
    if not args or args[0] not in PROPS:
        die("usage: check.py <ID> [quick|thorough] [--replay FILE]; known: " + " ".join(sorted(PROPS)))
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("tier must be quick or thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    t0 = time.time()
    workdir = os.path.join(BUILD, "run-" + pid)
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-") and not (replay and os.path.abspath(args[0]) == f):
            if not replay:
                os.remove(os.path.join(rdir, f))
    th = tree_hash()
    units = {n: u for n, u in spec["units"].items() if not u.get("tiers") or (replay or tier in u["tiers"])}
    if replay:
        units = {replay["unit"]: units[replay["unit"]]}
    violations = []
    exes = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        groups_ = {}
        for n, u in units.items():
            groups_.setdefault(json.dumps([u["src"], u.get("defs"), u.get("san"), u.get("libs"), u.get("flags")]), []).append(n)
        futs = {ex.submit(build_unit, pid, ns[0], units[ns[0]], th): ns for ns in groups_.values()}
        for f in cf.as_completed(futs):
            ns = futs[f]
            n = ns[0]
            try:
                exe_ = f.result()
                for n in ns:
                    exes[n] = exe_
            except CompileError as e:
                violations.append(dict(unit=n, key="does-not-compile", group="build", idx=0, history="",
                                       detail="the interface this property is stated over no longer compiles:\n" + str(e), count=1))
    tb = time.time()
    deadline = spec.get("timeout", {"quick": 600, "thorough": 3000}[tier]) if tier == "quick" else 20000

    if replay:
        n = replay["unit"]
        r = run_one(pid, n, units[n], exes[n], replay["tier"], 0, 1, seed, workdir, 600, replay)
        print(r["err"][-6000:])
        print(json.dumps(r["res"], indent=1) if r["res"] else "no result, exit %s at %s" % (r["rc"], r["status"]))
        bad = r["rc"] != 0
        print("replay: %s" % ("REPRODUCED" if bad else "did not fail"))
        sys.exit(1 if bad else 0)

    jobs = []
    for n in units:
        if n in exes:
            u = units[n]
            k = u.get("shards", 1)
            for s in range(k):
                jobs.append((n, s, k))
    jobs.sort(key=lambda j: -units[j[0]].get("weight", 1))
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(run_one, pid, n, units[n], exes[n], tier, s, k, seed, workdir, deadline) for n, s, k in jobs]
        for f in futs:
            results.append(f.result())

    tot = dict(states=0, transitions=0, traces=0)
    samples, outcomes, groups, bounds = [], {}, {}, {}
    for r in results:
        res = r["res"]
        if r["rc"] in (0, 10) and res:
            for k in tot:
                tot[k] += res[k]
            for s in res["samples"]:
                samples.append(r["unit"] + ": " + s)
            for src, dst in ((res["outcomes"], outcomes), (res["groups"], groups)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            for k, v in res["bounds"].items():
                bounds[k] = v
            for f in res["fails"]:
                violations.append(dict(f, unit=r["unit"]))
        else:
            c, grp, idx, desc = r["status"]
            if r["rc"] == 3 or (c == 0 and r["rc"] == "timeout"):
                die("harness error: %s\n%s" % (r["cmd"], r["err"][-2000:]))
            if r["rc"] == "timeout" and c > 0:
                die("time budget of unit %s exhausted at %s#%d (not a verdict)" % (r["unit"], grp, idx))
            if r["rc"] == -9:
                die("unit %s was killed (memory?)" % r["unit"])
            if r["rc"] == 97:
                # re-run the case alone with a longer limit before calling it a hang
                key, what = "hang", "no progress within the CPU limit of one case"
            else:
                key, what = crash_key(r["err"]), "process ended with %s" % r["rc"]
            m = re.search(r"(==\d+==ERROR|runtime error)", r["err"])
            ctx = r["err"][max(0, m.start() - 300): m.start() + 3500] if m else r["err"][-3000:]
            violations.append(dict(unit=r["unit"], key=grp + "/" + key, group=grp, idx=idx, history=desc, count=1,
                                   detail="%s in case %s#%d %s\n%s" % (what, grp, idx, desc, ctx)))

    known = [k for k in load_known() if k["property"] == pid]
    fresh, matched = [], {}
    for v in violations:
        hit = None
        for k in known:
            if k.get("unit", v["unit"]) == v["unit"] and k["key"] == v["key"]:
                hit = k
        if hit:
            matched.setdefault(hit["key"], hit)
        else:
            fresh.append(v)
    # replay every fresh violation alone before reporting it
    merged = {}
    for v in fresh:
        merged.setdefault((v["unit"], v["key"]), v)
    fresh = list(merged.values())
    lines = []
    for i, v in enumerate(fresh[:int(os.environ.get("MC_MAXV", "12"))]):
        rep = dict(property=pid, tier=tier, unit=v["unit"], group=v["group"], idx=v["idx"], history=v["history"],
                   key=v["key"], detail=v["detail"], repo_tree=th,
                   how="python3 %s --replay <this file>" % os.path.join("mc", "check.py"))
        if v["unit"] in exes:
            r = run_one(pid, v["unit"], units[v["unit"]], exes[v["unit"]], tier, 0, 1, seed, workdir, 300,
                        dict(group=v["group"], idx=v["idx"], history=v["history"]))
            rep["reproduced_alone"] = r["rc"] != 0
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as fp:
            json.dump(rep, fp, indent=1)
        lines.append((path, v, rep))
    for k in known:
        if k["key"] in matched:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for path, v, rep in lines:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s] %s (x%d): %s" % (v["unit"], v["key"], v["count"], v["detail"][:int(os.environ.get("MC_DETAIL", "400"))].replace("\n", "\n    ")))
        if v["history"]:
            print("    history: " + v["history"])
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], samples=samples[:24] or ["(none)"],
                            exhaustive=True, distinct_outcomes=len(outcomes),
                            outcomes=dict(sorted(outcomes.items())[:200]),
                            traces_per_group=groups, bounds=bounds,
                            meaning=spec.get("meaning", "states: distinct inputs/object states of the enumeration reached; transitions: operations of the real code executed and judged against the model; traces_validated_against_impl: complete cases (histories or input tuples) of the model replayed on the real code"),
                            units=sorted(exes), binaries_built_from=th),
              assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), build_s=round(tb - t0, 2),
              violations=len(fresh), known_findings=sorted(matched))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d build=%.1fs wall=%.1fs" % (
        pid, tier, tot["states"], tot["transitions"], tot["traces"], len(outcomes), len(fresh), len(matched), tb - t0, time.time() - t0))
    shutil.rmtree(workdir, ignore_errors=True)
    if not fresh and tot["traces"] == 0:
        die("vacuous run: nothing was explored")
    sys.exit(1 if fresh else 0)


if __name__ == "__main__":
    main()
