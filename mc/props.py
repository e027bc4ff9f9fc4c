# Units of every property: name -> (source, defines, part, shards, sanitizer)
def U(src, defs=(), part=None, shards=1, san="ubsan", libs=False, weight=1, flags=(), tiers=None):
    return dict(src=src, defs=list(defs), part=part, shards=shards, san=san, libs=libs, weight=weight, flags=list(flags), tiers=tiers)

PROPS = {}

PROPS["C01"] = dict(units={
    **{"bfs%d" % n: U("deque.cpp", ["DN=%d" % n], "bfs") for n in (0, 1, 2, 3, 4)},
    **{"two%d" % n: U("deque.cpp", ["DN=%d" % n], "two") for n in (0, 1, 2, 3)},
    **{"seq%d" % n: U("deque.cpp", ["DN=%d" % n], "seq", shards=2) for n in (0, 1, 2, 3)},
})

PROPS["C02"] = dict(units={
    **{"bfs%d" % n: U("smallstorage.cpp", ["DN=%d" % n], "bfs") for n in (0, 1, 2, 3, 4)},
    **{"two%d" % n: U("smallstorage.cpp", ["DN=%d" % n], "two") for n in (0, 1, 2, 3)},
    **{"seq%d" % n: U("smallstorage.cpp", ["DN=%d" % n], "seq", shards=2) for n in (0, 1, 2, 3)},
})

PROPS["C03"] = dict(units={"p%d" % p: U("storage.cpp", ["MCP=%d" % p]) for p in (1, 2, 3)})

PROPS["C04"] = dict(units={
    "n4i3": U("tree.cpp", ["MAXN=4", "MAXI=3"], "edit"),
    "n5i2": U("tree.cpp", ["MAXN=5", "MAXI=2"], "edit"),
    "n3i4": U("tree.cpp", ["MAXN=3", "MAXI=4"], "edit"),
    "n5i3": U("tree.cpp", ["MAXN=5", "MAXI=3"], "edit", tiers=["thorough"]),
    "n6i2": U("tree.cpp", ["MAXN=6", "MAXI=2"], "edit", tiers=["thorough"]),
    "n4i4": U("tree.cpp", ["MAXN=4", "MAXI=4"], "edit", tiers=["thorough"]),
})
PROPS["C05"] = dict(units={
    "n4i3": U("tree.cpp", ["MAXN=4", "MAXI=3"], "query"),
    "n5i2": U("tree.cpp", ["MAXN=5", "MAXI=2"], "query"),
    "n5i3": U("tree.cpp", ["MAXN=5", "MAXI=3"], "query", tiers=["thorough"]),
})
PROPS["C06"] = dict(units={"p%d" % p: U("grid.cpp", ["MCP=%d" % p], shards=3) for p in (1, 2, 3)})

PROPS["C07"] = dict(units={**{"k%d_%d" % k: U("mview.cpp", ["KLO=%d" % k[0], "KHI=%d" % k[1]], san="o0", libs=True)
                              for k in ((0, 1), (2, 3), (4, 5), (6, 7), (8, 9), (10, 10), (11, 11), (12, 12))},
                           **{"b%d" % k: U("mview.cpp", ["KLO=%d" % k, "KHI=%d" % k, "GEOMC_MTX_CHECK_BOUNDS"], san="o0", libs=True) for k in (0, 3, 4, 6, 9, 10, 11)},
                           **{"b%d" % k: U("mview.cpp", ["KLO=%d" % k, "KHI=%d" % k, "GEOMC_MTX_CHECK_BOUNDS"], san="o0", libs=True, tiers=["thorough"]) for k in (1, 2, 5, 7, 8, 12)}})
PROPS["C08"] = dict(units={**{"k%d" % k: U("arith.cpp", ["KA=%d" % k], san="o0", libs=True, tiers=["quick"]) for k in range(13)},
                           **{"c%d" % k: U("arith.cpp", ["KA=%d" % k, "GEOMC_MTX_CHECK_BOUNDS"], san="o0", libs=True, tiers=["thorough"]) for k in range(13)},
                           **{"m%d" % k: U("mixed.cpp", ["KA=%d" % k, "MCP=8"], san="o0", libs=True, tiers=["quick"]) for k in range(13)},
                           **{"M%d" % k: U("mixed.cpp", ["KA=%d" % k, "MCP=8", "DEEP"], san="o0", libs=True, tiers=["thorough"]) for k in range(13)},
                           **{"a%d" % k: U("arith.cpp", ["KA=%d" % k, "ALLPAIRS"], san="o0", libs=True, tiers=["thorough"]) for k in range(13)}})
PROPS["C09"] = dict(units={**{"k%d" % k: U("mult.cpp", ["KA=%d" % k], san="o0", libs=True, tiers=["quick"]) for k in range(13)},
                           **{"c%d" % k: U("mult.cpp", ["KA=%d" % k, "GEOMC_MTX_CHECK_BOUNDS"], san="o0", libs=True, tiers=["thorough"]) for k in range(13)},
                           **{"m%d" % k: U("mixed.cpp", ["KA=%d" % k, "MCP=9"], san="o0", libs=True, tiers=["quick"]) for k in range(13)},
                           **{"M%d" % k: U("mixed.cpp", ["KA=%d" % k, "MCP=9", "DEEP"], san="o0", libs=True, tiers=["thorough"]) for k in range(13)},
                           **{"d%d" % k: U("mult.cpp", ["KA=%d" % k, "DEEP"], san="o0", libs=True, tiers=["thorough"]) for k in range(13)}})
PROPS["C10"] = dict(units={"p1": U("det.cpp", ["MCP=1"], san="asan", libs=True, shards=3), "p2": U("det.cpp", ["MCP=2"], san="asan", libs=True, shards=2),
                           "p3": U("det.cpp", ["MCP=3"], san="asan", libs=True), "p4": U("det.cpp", ["MCP=4"], san="asan", libs=True)})
PROPS["C11"] = dict(units={"p1": U("lu.cpp", ["MCP=1"], san="asan", libs=True, shards=3), "p2": U("lu.cpp", ["MCP=2"], san="asan", libs=True, shards=3), "p3": U("lu.cpp", ["MCP=3"], san="asan", libs=True)})
PROPS["C12"] = dict(units={"p%d" % p: U("ortho.cpp", ["MCP=%d" % p], san="asan", libs=True, shards=3) for p in (1, 2, 3)})
PROPS["C13"] = dict(units={"all": U("chol.cpp", san="asan", libs=True, shards=2)})
PROPS["C14"] = dict(units={"s%dn%d" % (s, n): U("perm.cpp", ["MCP=%d" % s, "PN=%d" % n], san="asan", libs=True, shards=1) for s in (1, 2, 3) for n in (3, 4)})
PROPS["C15"] = dict(units={"k%d" % k: U("dims.cpp", ["LO=%d" % k, "HI=%d" % k], san="o0", libs=True) for k in range(13)})
PROPS["C16"] = dict(units={"p%d" % p: U("vec.cpp", ["MCP=%d" % p], shards=(1, 1, 2, 2, 1)[p]) for p in (1, 2, 3, 4)})
PROPS["C17"] = dict(units={t: U("rect.cpp", ["ET=" + t], shards=3) for t in ("double", "float", "int")})
PROPS["C28"] = dict(units={"%s_%s" % (p, t): U("affine.cpp", ["ET=" + t], p, shards=2, san="ubsan", libs=True) for p in ("make", "compose") for t in ("double", "float")})
PROPS["C29"] = dict(units={"%s_%s" % (p, t): U("quat.cpp", ["ET=" + t], p, shards=2, libs=True) for p in ("algebra", "functions") for t in ("double", "float")})
PROPS["C30"] = dict(units={t: U("ray.cpp", ["ET=" + t], shards=3, libs=True) for t in ("double", "float")})
PROPS["C31"] = dict(units={**{"expr_" + t: U("dual.cpp", ["ET=" + t], "expr", shards=4, libs=True) for t in ("double", "float")}, **{"policy_" + t: U("dual.cpp", ["ET=" + t], "policy", libs=True) for t in ("double", "float")}})
PROPS["C36"] = dict(units={p: U("utils.cpp", [], p, shards=2, libs=True) for p in ("int", "real", "prod")})
PROPS["C35"] = dict(units={t: U("path.cpp", ["ET=" + t], shards=3, libs=True) for t in ("double", "float")})
PROPS["C37"] = dict(units={"all": U("hash.cpp", shards=3, libs=True), "wide": U("hash.cpp", ["WIDE"], flags=["-std=gnu++20"], libs=True)})
PROPS["C38"] = dict(units={"all": U("siphash.cpp", shards=6, libs=True)})
PROPS["C32"] = dict(units={"p%d" % p: U("raster.cpp", ["MCP=%d" % p], shards=3, libs=True) for p in (1, 2, 3)})
PROPS["C33"] = dict(units={t: U("perlin.cpp", ["ET=" + t], shards=4, libs=True) for t in ("double", "float")})
PROPS["C34"] = dict(units={t: U("sh.cpp", ["ET=" + t], shards=4, libs=True) for t in ("double", "float")})
PROPS["C39"] = dict(units={**{p: U("random.cpp", [], p, shards=3, libs=True) for p in ("ints", "reals", "gens")}, "full": U("random.cpp", ["FULL"], "full", shards=8, libs=True, san="fast")})
PROPS["C40"] = dict(units={t: U("sampler.cpp", ["ET=" + t], shards=4, libs=True) for t in ("double", "float")})
for _id, _part, _sh in (("C18", "contain", 1), ("C19", "dist", 1), ("C20", "ray", 4), ("C21", "support", 1)):
    PROPS[_id] = dict(units={"n%d_%s" % (n, t): U("shape.cpp", ["MCP=%d" % n, "ET=" + t], _part, shards=_sh, libs=True) for n in (2, 3, 4, 5) for t in ("double", "float")})
PROPS["C23"] = dict(units={"n%d_%s" % (n, t): U("simplex.cpp", ["MCP=%d" % n, "ET=" + t], shards=(1, 2, 6, 4)[n - 2], libs=True) for n in (2, 3, 4, 5) for t in ("double", "float")})
PROPS["C24"] = dict(units={t: U("plane.cpp", ["ET=" + t], shards=3, libs=True) for t in ("double", "float")})
PROPS["C22"] = dict(units={"n%d_%s" % (n, t): U("overlap.cpp", ["MCP=%d" % n, "ET=" + t], shards=(1, 3, 8, 8)[n - 2], libs=True, weight=n, san="ubsan" if n == 2 else "fast") for n in (2, 3, 4, 5) for t in ("double", "float")})
PROPS["C26"] = dict(units={"n%d_%s" % (n, t): U("bins.cpp", ["MCP=%d" % n, "ET=" + t], shards=3, libs=True) for n in (1, 2, 3, 4) for t in ("double", "float")})
PROPS["C27"] = dict(units={"n%d_%s" % (n, t): U("kdtree.cpp", ["MCP=%d" % n, "ET=" + t], shards=4, libs=True) for n in (2, 3, 4) for t in ("double", "float")})
PROPS["C25"] = dict(units={"n%d_%s" % (n, t): U("xform.cpp", ["MCP=%d" % n, "ET=" + t], shards=(2, 3, 4, 4)[n - 2], libs=True, weight=n, san="fast") for n in (2, 3, 4, 5) for t in ("double", "float")})
