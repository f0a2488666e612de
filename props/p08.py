"""P08 response and instrumental control incentives."""
from props.p07 import PLACE5, PLACE6, make  # noqa: F401
from symx.gcommon import module, names, refusals, snapshot_edges
from symx.gspec import And, Not, Or, iff, recall, reduction

BOUNDS = {"quick": "all DAGs on 5 nodes; 1-2 decisions, 1-2 utilities (placements in configs())",
          "thorough": "all DAGs on 6 nodes with 1-2 decisions"}
WITNESS = ["ri:True", "ri:False", "ici:True", "ici:False", "refused"]
OUTSIDE = "larger diagrams, more decisions"


def configs(tier):
    k = 0
    for n, places in ((5, PLACE5), (6, PLACE6 if tier == "thorough" else [])):
        for ds, us in places:
            for d in ds:
                k += 1
                for mode in ("ri", "ici"):
                    yield {"name": f"{mode} n{n} D{ds} U{us} at {d}", "mode": mode, "n": n, "perm": k % 3, "ds": ds,
                           "us": us, "d": d, "weight": len(ds) * n}
    yield {"name": "refusals", "mode": "refuse", "n": 4, "perm": 0, "ds": [1], "us": [3], "d": 1}


def body(ctx, cfg):
    ri = module("pycid.analyze.response_incentive")
    ici = module("pycid.analyze.instrumental_control_incentive")
    topo = names(cfg["n"], cfg["perm"])
    if cfg["mode"] == "refuse":
        return refusals(ctx, topo, [("ri", ri.admits_ri, 2), ("ri list", ri.admits_ri_list, 1),
                                    ("ici", ici.admits_ici, -2), ("ici list", ici.admits_ici_list, -1)])
    g, G, ds, us, d = make(ctx, cfg, topo)
    before = snapshot_edges(g, topo)
    uo = lambda _: us  # noqa: E731
    if cfg["mode"] == "ici":
        st, lst = ctx.call(ici.admits_ici_list, g, d)
        ctx.check("no error", st == "ok")
        spec = {x: Or(*[And(G.reach0(d, x), G.reach0(x, u)) for u in us]) for x in topo}
        single = ici.admits_ici
    else:
        st, lst = ctx.call(ri.admits_ri_list, g, d)
        rec = recall(G, ds, uo)
        if st == "exc":
            ctx.out("refused", True)
            ctx.tag("refused")
            ctx.check("refused only without sufficient recall", Not(rec))
            ctx.check("single form refuses as well", ctx.call(ri.admits_ri, g, d, topo[-1])[0] == "exc")
            return
        ctx.check("answered only with sufficient recall", rec)
        H, done = reduction(G, ds, uo)
        ctx.check("specification reached its fixpoint", done)
        spec = {x: False if x == d else H.reach(x, d) for x in topo}
        single = ri.admits_ri
    lst = list(lst)
    ctx.out("list", sorted(lst))
    ctx.check("list has no repetition", len(set(lst)) == len(lst))
    for x in topo:
        ctx.tag(f"{cfg['mode']}:{x in lst}")
        ctx.check(f"incentive on {x}", iff(x in lst, spec[x]))
        st, r = ctx.call(single, g, d, x)
        ctx.check(f"single form for {x}", st == "ok" and r == (x in lst))
    after = snapshot_edges(g, topo)
    ctx.check("input unchanged", And(*[iff(after[k], before[k]) for k in before]))
