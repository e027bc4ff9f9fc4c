#!/usr/bin/env python3
"""Mechanical mutation of the library, used only to find gaps in the checks (no check depends on it).
  mutate.py FILE IDS N [seed]     N random mutants of /repo/FILE against the first units of properties IDS (comma separated)
  mutate.py --full LISTFILE       re-run the survivors recorded in LISTFILE against all units
Works on copies under /tmp/mut; never touches /repo. Prints one line per mutant: KILLED / SURVIVED / UNREACHED / NOCOMPILE."""
import os, re, sys, json, random, shutil, subprocess, hashlib
W = os.environ.get("MUT_W", "0")
RW, VW = "/tmp/mut/r" + W, "/tmp/mut/v" + W
OUT = os.environ.get("MUT_OUT", "/tmp/mut/out")
FIRST = {"C01": ["bfs1", "two2", "seq1"], "C02": ["bfs1", "two2", "seq2"], "C03": ["p1", "p2", "p3"], "C04": ["n3i4"], "C05": ["n4i3"], "C06": ["p1", "p2", "p3"],
 "C07": ["k0_1", "k4_5", "k10_10"], "C08": ["k0", "k3", "k8"], "C09": ["k0", "k3", "k8"], "C10": ["p1", "p2"], "C11": ["p1", "p2"], "C12": ["p1", "p2", "p3"], "C14": ["s1n3", "s2n3"], "C15": ["k0", "k3"],
 "C39": ["ints", "reals", "gens"], "C16": ["p1", "p2", "p3", "p4"], "C17": ["double", "int"]}

def muts(line):
    """all mutants of a code line"""
    o = []
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("#", "*", "/*", "template", "typedef", "using", "namespace", "class", "struct", "static_assert", "friend", "public", "private", "protected", "extern")):
        return o
    def sub(pat, rep, lo=0):
        for m in re.finditer(pat, code):
            o.append(code[:m.start()] + m.expand(rep) + code[m.end():])
    for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                 (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (r" += ", " -= "), (" -= ", " += "), (" *= ", " /= "), (" % ", " / "),
                 (" && ", " || "), (" || ", " && "), (" and ", " or "), (" or ", " and "), (r" \| ", " & "), (" & (?=[a-z(])", " | "), (" < ", " > "), (" > ", " < "), (" >> ", " << ")):
        if re.search(r"<|>", a) and "template" in code: continue
        a2 = a if "\\" in a or "(?" in a else re.escape(a)
        sub(a2, b)
    sub(r"\+\+", "--"); sub(r"(?<![-])--(?!-)", "++")
    sub(r"\bnot (?=\w)", ""); sub(r"(?<=[(\s])!(?=[\w(])", "")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"\bstd::min\b", "std::max"); sub(r"\bstd::max\b", "std::min")
    sub(r"\bstd::abs\b", ""); sub(r"\bstd::sqrt\b", "")
    sub(r"\bstd::sin\b", "std::cos"); sub(r"\bstd::cos\b", "std::sin")
    sub(r"(?<![\w.\]<,])0(?![\w.>])", "1"); sub(r"(?<![\w.])1(?![\w.>])", "2"); sub(r"(?<![\w.])1(?![\w.>])", "0"); sub(r"(?<![\w.])2(?![\w.>])", "1"); sub(r"(?<![\w.])2(?![\w.>])", "3")
    sub(r"(?<=[ (=])-(?=[\w(])", "")
    sub(r"\[0\]", "[1]"); sub(r"\[1\]", "[0]"); sub(r"\bi\b", "(i+1)"); sub(r"\bj\b", "(j+1)")
    sub(r"\.lo\b", ".hi"); sub(r"\.hi\b", ".lo"); sub(r"\blo\b(?!\w)", "hi"); sub(r"\bhi\b(?!\w)", "lo"); sub(r"\.x\b", ".y"); sub(r"\.y\b", ".x"); sub(r"\.z\b", ".x")
    sub(r"\bif \((.*)\)", r"if (not(\1))"); sub(r"\bbreak;", "continue;"); sub(r"\bcontinue;", "break;")
    s = code.strip()
    if s.endswith(";") and not s.startswith(("return", "}", "const ", "typename", "break", "continue")) and re.match(r"[\w\[\]\.\->\(\)\*]+\s*([-+*/|&]?=|\(|\+\+|--)", s) and not re.match(r"\w[\w:<>]* [\w]+ ?[=;(]", s):
        o.append(code[:len(code) - len(code.lstrip())] + ";\n")
    return [x.rstrip("\n") + "\n" for x in dict.fromkeys(o) if x.strip() != code.strip()]

def sites(path):
    L = open(path).read().split("\n"); L = [l + "\n" for l in L]
    res, incom, inasm = [], False, False
    for i, l in enumerate(L):
        if incom:
            if "*/" in l: incom = False
            continue
        if l.strip().startswith("/*") or l.strip().startswith("/**"):
            if "*/" not in l: incom = True
            continue
        for m in muts(l): res.append((i, m))
    return L, res

def setup():
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run("mkdir -p %s %s; rsync -a --delete --exclude .git /repo/geomc %s/; rsync -a --delete /verif/mc /verif/harness /verif/known_findings.json %s/" % (RW, VW, RW, VW), shell=True, check=True) if shutil.which("rsync") else \
    subprocess.run("rm -rf %s %s/mc %s/harness; mkdir -p %s %s; cp -a /repo/geomc %s/; cp -a /verif/mc /verif/harness /verif/known_findings.json %s/" % (RW, VW, VW, RW, VW, RW, VW), shell=True, check=True)
    p = VW + "/mc/check.py"; s = open(p).read()
    s = s.replace("    if replay:\n        units = {replay", "    if os.environ.get('MC_UNITS'):\n        units = {n: u for n, u in units.items() if n in os.environ['MC_UNITS'].split(',')}\n    if replay:\n        units = {replay", 1)
    s = s.replace("th = tree_hash()", "th = os.environ.get('MC_TH') or tree_hash()").replace('"-g1"', '"-g0", "-ffile-prefix-map=%s=/r" % REPO, "-ffile-prefix-map=%s=/v" % VERIF').replace("NCPU = os.cpu_count() or 4", "NCPU = int(os.environ.get('MC_NCPU', '3'))")
    if os.environ.get("MUT_FAST"):  # no sanitizers, for throughput
        s = s.replace("flags = BASE + SAN[unit.get(\"san\", \"ubsan\")]", "flags = BASE + ['-O1']")
    open(p, "w").write(s)

def binhash(pid):
    d = VW + "/build/bin"; o = {}
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(pid + "-") and not f.endswith(".log") and ".tmp" not in f:
                o[f.rsplit("-", 1)[0]] = hashlib.sha256(open(d + "/" + f, "rb").read()).hexdigest()
    return o

def run(pid, full, th):
    from_first = FIRST.get(pid)
    sys.path.insert(0, VW + "/mc")
    import props
    allu = [n for n, u in props.PROPS[pid]["units"].items() if not u.get("tiers") or "quick" in u["tiers"]]
    us = allu if full else ([u for u in from_first if u in allu] if from_first else ([u for u in allu if u.endswith("double")] or allu))
    env = dict(os.environ, GEOMC_REPO=RW, MC_UNITS=",".join(us), MC_TH=th, VERIF_SEED="1")
    try:
        r = subprocess.run(["python3", VW + "/mc/check.py", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"

def judge(f, pids, i, m, L, base, full):
    open(RW + "/" + f, "w").write("".join(L[:i] + [m] + L[i + 1:])[:-1])
    reached = False; verdict = "SURVIVED"; info = ""
    for pid in pids:
        th = "mut" + hashlib.sha256(("%s%d%s%s" % (f, i, m, full)).encode()).hexdigest()[:12]
        rc, out = run(pid, full, th)
        if "does-not-compile" in out: verdict = "NOCOMPILE"; break
        h = binhash(pid)
        if any(base[pid].get(k) != v for k, v in h.items()): reached = True
        if rc == 1: verdict = "KILLED"; info = pid + " " + next((l.strip()[:100] for l in out.split("\n") if l.startswith("  [")), ""); break
        if rc != 0: info += " rc=%s(%s)" % (rc, pid); verdict = "ODD"
    else:
        if not reached: verdict = "UNREACHED"
    return verdict, info

def main():
    a = sys.argv[1:]
    full = a[0] == "--full"
    setup()
    todo = []
    if full:
        for l in open(a[1]):
            d = json.loads(l)
            if d["verdict"] in ("SURVIVED", "ODD"): todo.append((d["file"], d["props"], d["line"], d["mut"]))
    else:
        f, pids, n = a[0], a[1].split(","), int(a[2])
        L, S = sites("/repo/" + f)
        rnd = random.Random(int(a[3]) if len(a) > 3 else 1)
        rnd.shuffle(S)
        for i, m in S[:n]: todo.append((f, pids, i, m))
    base = {}; cnt = {}
    for pid in sorted({p for t in todo for p in t[1]}):
        rc, out = run(pid, full, "base" + hashlib.sha256(str(full).encode()).hexdigest()[:4])
        base[pid] = binhash(pid)
        if rc != 0: print("BASE", pid, rc, out[-400:]); return
    for f, pids, i, m in todo:
        L = [l + "\n" for l in open("/repo/" + f).read().split("\n")]
        v, info = judge(f, pids, i, m, L, base, full)
        shutil.copy("/repo/" + f, RW + "/" + f)
        cnt[v] = cnt.get(v, 0) + 1
        with open(OUT + ("-full" if full else "") + ".jsonl", "a") as o:
            o.write(json.dumps(dict(file=f, props=pids, line=i, mut=m, orig=L[i], verdict=v, info=info)) + "\n")
        if v not in ("KILLED", "NOCOMPILE"):
            print("%s %s:%d\n   - %s\n   + %s %s" % (v, f, i + 1, L[i].strip(), m.strip(), info), flush=True)
    print("DONE", a, cnt, flush=True)
if __name__ == "__main__":
    main()
