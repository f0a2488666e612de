"""P07 graphical value of information."""
from symx import gspec
from symx.gcommon import diagram, module, names, refusals, snapshot_edges
from symx.gspec import And, Not, Or, iff, known, recall, reduction

BOUNDS = {"quick": "all DAGs on 5 nodes; 1-2 decisions, 1-2 utilities (placements in configs())",
          "thorough": "all DAGs on 6 nodes with 1-2 decisions, on 5 nodes with 1-3 decisions"}
WITNESS = ["voi:True", "voi:False", "refused", "single:True"]
OUTSIDE = "larger diagrams, more decisions"
PLACE5 = [([2], [4]), ([3], [4, 1]), ([1], [3]), ([1, 3], [4]), ([1, 2], [3, 4]), ([2, 3], [4]), ([0, 2], [3, 4]),
          ([1, 3], [2, 4]), ([0, 3], [1, 4])]
PLACE6 = [([3], [5]), ([4], [5, 2]), ([2], [4, 5]), ([2, 4], [5]), ([1, 3], [4, 5])]


def configs(tier, every_decision=True):
    k = 0
    for n, places in ((5, PLACE5), (6, PLACE6 if tier == "thorough" else [])):
        for ds, us in places + ([([0, 1, 3], [2, 4]), ([1, 2, 3], [4])] if tier == "thorough" and n == 5 else []):
            for d in (ds if every_decision else ds[:1]):
                k += 1
                yield {"name": f"n{n} D{ds} U{us} at {d}", "mode": "main", "n": n, "perm": k % 3, "ds": ds, "us": us,
                       "d": d, "weight": len(ds) * n}
    yield {"name": "refusals", "mode": "refuse", "n": 4, "perm": 0, "ds": [1], "us": [3], "d": 1}


def make(ctx, cfg, topo):
    ds = [topo[i] for i in cfg["ds"]]
    us = [topo[i] for i in cfg["us"]]
    g, G = diagram(ctx, topo, {0: ds[::-1] if cfg["perm"] == 1 else ds}, {0: us}, kind="CID",
                   order=topo[::-1] if cfg["perm"] == 2 else topo)
    return g, G, ds, us, topo[cfg["d"]]


def body(ctx, cfg):
    m = module("pycid.analyze.value_of_information")
    topo = names(cfg["n"], cfg["perm"])
    if cfg["mode"] == "refuse":
        return refusals(ctx, topo, [("voi", lambda g, d, x: m.admits_voi(g, d, x), 2),
                                    ("voi list", lambda g, d: m.admits_voi_list(g, d), 1)])
    g, G, ds, us, d = make(ctx, cfg, topo)
    before = snapshot_edges(g, topo)
    uo = lambda _: us  # noqa: E731
    st, lst = ctx.call(m.admits_voi_list, g, d)
    rec = recall(G, ds, uo)
    if st == "exc":
        ctx.out("refused", True)
        ctx.tag("refused")
        ctx.check("refused only without sufficient recall", Not(rec))
        x = next(v for v in topo if v not in ds)
        st, r = ctx.call(m.admits_voi, g, d, x)
        ctx.check("single form refuses as well", st == "exc")
        return
    lst = list(lst)
    ctx.out("list", sorted(lst))
    ctx.check("list has no repetition", len(set(lst)) == len(lst))
    asked = [x for x in topo if x != d and known(G.reach(d, x)) is not True]
    if asked:
        ctx.check("answered only with sufficient recall", Or(rec, *[]) if lst else
                  Or(rec, And(*[G.reach(d, x) for x in asked])))
    for x in topo:
        if x == d:
            spec = False
        else:
            H = G.plus_edge(x, d).without({(d, x): True})
            H, done = reduction(H, ds, uo)
            ctx.check("specification reached its fixpoint", Or(done, G.reach(d, x)))
            spec = And(Not(G.reach(d, x)), H.e(x, d))
        ctx.tag(f"voi:{x in lst}")
        ctx.check(f"value of information of {x}", iff(x in lst, spec))
    for x in topo:
        st, r = ctx.call(m.admits_voi, g, d, x)
        if st == "exc":
            ctx.check("single form answers", Not(rec))
            continue
        ctx.tag(f"single:{r}")
        ctx.check(f"single form for {x}", r == (x in lst))
    after = snapshot_edges(g, topo)
    ctx.check("input unchanged", And(*[iff(after[k], before[k]) for k in before]))
