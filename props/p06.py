"""P06 requisite observations, minimal reduction."""
import itertools

from symx import gspec
from symx.gcommon import diagram, module, names, snapshot_edges
from symx.gspec import And, Not, Or, iff, known, reduction, requisite

BOUNDS = {"quick": "requisite: all DAGs on 6 nodes, one decision, 1-2 utilities; reduction: all DAGs on 5 nodes, "
                   "1-3 decisions, one or two agents",
          "thorough": "requisite: all DAGs on 7 nodes; reduction: all DAGs on 6 nodes, 1-3 decisions"}
WITNESS = ["requisite:True", "requisite:False", "removed", "kept"]
OUTSIDE = "larger diagrams"


def configs(tier):
    n = 6 if tier == "quick" else 7
    for i, (d, us) in enumerate(((n - 2, [n - 1]), (2, [n - 1]), (3, [4, 5]), (3, [1, 5]), (4, [5, 0]), (1, [3, 4]))):
        yield {"name": f"requisite n{n} D{d} U{us}", "mode": "req", "n": n, "perm": i % 3, "d": d, "us": us,
               "weight": 2}
    n = 5
    k = 0
    for ds, us in (([2], [4]), ([3], [4, 1]), ([1, 2], [3, 4]), ([1, 3], [2, 4]), ([1, 3], [4]), ([2, 3], [4]),
                   ([0, 2], [3, 4]), ([0, 3], [1, 4]), ([0, 1, 2], [3, 4]), ([0, 1, 3], [2, 4]), ([1, 2, 3], [4])):
        for own in ("one", "two"):
            if own == "two" and (len(ds) < 2 or len(us) < 2):
                continue
            k += 1
            yield {"name": f"reduction n{n} D{ds} U{us} {own}", "mode": "red", "n": n, "perm": k % 3, "ds": ds,
                   "us": us, "own": own, "weight": 5}
    if tier == "thorough":
        for ds, us in (([3], [4, 5]), ([2, 4], [5]), ([2, 3], [4, 5]), ([1, 3], [2, 5]), ([1, 2, 4], [3, 5]),
                       ([1, 2, 3], [4, 5])):
            for own in ("one", "two"):
                if own == "two" and (len(ds) < 2 or len(us) < 2):
                    continue
                k += 1
                yield {"name": f"reduction n6 D{ds} U{us} {own}", "mode": "red", "n": 6, "perm": k % 3, "ds": ds,
                       "us": us, "own": own, "weight": 9}


def body(ctx, cfg):
    topo = names(cfg["n"], cfg["perm"])
    (one if cfg["mode"] == "req" else red)(ctx, cfg, topo)


def one(ctx, cfg, topo):
    rg = module("pycid.analyze.requisite_graph")
    d = topo[cfg["d"]]
    us = [topo[i] for i in cfg["us"]]
    g, G = diagram(ctx, topo, {0: [d]}, {0: us, 1: []})
    spec = {x: requisite(G, d, x, us) for x in topo if x != d}
    st, lst = ctx.call(rg.requisite_list, g, d)
    ctx.check("no error", st == "ok")
    lst = list(lst)
    ctx.out("list", sorted(lst))
    ctx.check("list has no repetition", len(set(lst)) == len(lst))
    for x in topo:
        ctx.check(f"list membership of {x}", iff(x in lst, spec.get(x, False)))
    for x in topo:
        st, r = ctx.call(rg.requisite, g, d, x)
        if st == "exc":
            ctx.check("refused only for non-parents", Not(G.e(x, d)))
            continue
        ctx.tag(f"requisite:{r}")
        ctx.check("answered only for parents", G.e(x, d))
        ctx.check(f"requisite {x}", iff(r, spec[x]))


def setup(ctx, cfg, topo, kind="MACID"):
    ds = [topo[i] for i in cfg["ds"]]
    us = [topo[i] for i in cfg["us"]]
    if cfg.get("own", "one") == "one":
        decs, utils = {0: ds[::-1] if cfg["perm"] else ds}, {0: us}
    else:
        decs, utils = {1: ds[:1], 0: ds[1:]}, {0: us[:1], 1: us[1:]}
    owner = {d: a for a, l in decs.items() for d in l}
    return ds, us, decs, utils, (lambda d: utils[owner[d]])


def red(ctx, cfg, topo):
    rg = module("pycid.analyze.requisite_graph")
    ds, us, decs, utils, uo = setup(ctx, cfg, topo)
    g, G = diagram(ctx, topo, decs, utils)
    before = snapshot_edges(g, topo)
    st, r = ctx.call(rg.requisite_graph, g)
    ctx.check("no error", st == "ok")
    ctx.check("same nodes", sorted(r.nodes) == sorted(topo))
    ctx.check("same roles", {k: list(v) for k, v in r.agent_decisions.items()} == decs
              and {k: list(v) for k, v in r.agent_utilities.items()} == utils)
    after = snapshot_edges(g, topo)
    ctx.check("input unchanged", And(*[iff(after[k], before[k]) for k in before])
              and sorted(g.nodes) == sorted(topo))
    spec, done = reduction(G, ds, uo)
    ctx.check("specification reached its fixpoint", done)
    got = snapshot_edges(r, topo)
    if all(isinstance(known(t), bool) for t in got.values()):
        ctx.out("reduced", sorted(k for k in got if known(got[k])))
    for (u, v), t in got.items():
        ctx.check(f"reduced link {u}->{v}", iff(t, spec.e(u, v)))
        if v in ds and known(t) is True:
            ctx.tag("kept")
            ctx.check(f"{u}->{v} is requisite in the result", requisite(gspec.SG(topo, got), v, u, uo(v)))
        elif v in ds and known(G.e(u, v)) is True:
            ctx.tag("removed")
