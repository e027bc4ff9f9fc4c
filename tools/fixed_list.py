#!/usr/bin/env python3
"""Fills the 'fixed' list of known_findings.json from /repo's fix: commits (maintenance tool, never run by a check)."""
import json, subprocess, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [  # first match on "files | subject" wins
 (r"Deque", "C01"), (r"SmallStorage reall|SmallStorage move|SmallStorage self|SmallStorage push", "C02"), (r"UniqueStorage|GenericStorage", "C03"),
 (r"Tree (queries|subtree|successor|edge)|Tree::find_parent|Tree subtree_begin", "C05"), (r"KDTree|\bKD", "C27"), (r"Tree", "C04"), (r"GridIterator|grid iterators", "C06"),
 (r"BinLattice", "C26"), (r"[Rr]aster", "C32"), (r"Perlin|noise", "C33"), (r"Harmonics|zonal|lambertian", "C34"),
 (r"PermutationMatrix|sign of a perm|permutation_apply|does not change the sign", "C14"), (r"det\(|det4x4|determinant|inv\(|inverse of a diag", "C10"), (r"cholesky", "C13"), (r"LU decomp", "C11"),
 (r"orthogonal\(\)|nullspace", "C12"), (r"check that the operands agree", "C15"), (r"hash|Hash|tuple", "C37"),
 (r"AffineTransform|xf /=", "C28"), (r"Quat|direction_align of|real quaternion|rotation_direction", "C29"), (r"Ray::|Ray\b.*compile", "C30"),
 (r"Dual|dual", "C31"), (r"complex|positive_mod|ceil_div|floor_div", "C36"),
 (r"random (points|unit)|cap about", "C40"), (r"random", "C39"),
 (r"ray intersection|Rays? parallel", "C20"), (r"Simplex|trace_simplex", "C23"), (r"Plane", "C24"), (r"intersects\(|overlap|Intersector", "C22"),
 (r"Rect::project|normal|project|sdf|distances|NaN", "C19"), (r"contain|coincident endpoints|dilat|Dilated", "C18"), (r"trait|convex_support", "C21"), (r"mirrored Oriented", "C25"),
 (r"product|mtx \* diag|diag \* mtx|mul\(|m \*= d|\bmul", "C09"), (r"sum of a perm|transpose|aliased", "C08"),
 (r"iterator|element|set_identity|proxy|operator\[\]|bounds-checked|as_transpose|aliases_storage|transposing", "C07"),
 (r"Rect", "C17"), (r"Vec|rgb|from_polar|brace", "C16"),
]
RECT = r"^(fix: )?(Rect|dimensional slicing|center of an integer Rect)"
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "f3b4716..HEAD"], stdout=subprocess.PIPE, text=True).stdout
for l in log.strip().split("\n"):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    s = s[5:]
    p = None
    if "line endings" in s: p = "C16"
    elif "mtx_aliases_storage" in s: p = "C09"
    elif "convex_support() along" in s: p = "C21"
    elif "wrong Convex trait" in s: p = "C21"
    elif re.match(r"(the )?normal of a Rect|Rect::project", s): p = "C19"
    elif re.match(RECT, s): p = "C17"
    elif re.match(r"Vec|Vec\d", s): p = "C16"
    elif "brace initialization of a Vec" in s: p = "C16"
    else:
        for r, q in RULES:
            if re.search(r, s): p = q; break
    out.append("fixed: property=%s %s %s" % (p or "C07", h, s))
    if not p: print("??", s)
k = json.load(open(V + "/known_findings.json")); k["fixed"] = out
json.dump(k, open(V + "/known_findings.json", "w"), indent=1); open(V + "/known_findings.json", "a").write("\n")
