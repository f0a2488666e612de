"""P04 strategic relevance, relevance graph, sufficient recall."""
import itertools

from symx import gspec
from symx.gcommon import diagram, names
from symx.gspec import And, Not, Or, iff, relevant

BOUNDS = {"quick": "all DAGs on 4 nodes (5 for single queries), up to 2 agents, all placements listed in configs()",
          "thorough": "all DAGs on 5 nodes (6 for single queries), up to 2 agents"}
WITNESS = ["r:True", "r:False", "recall:True", "recall:False", "edge:True", "edge:False", "acyclic:True", "acyclic:False"]
ASSUMPTIONS = []


def configs(tier):
    n = 5 if tier == "quick" else 6
    topo = names(n, 2)
    for d, u in itertools.permutations(range(n), 2):
        if d > u and (d, u) != (n - 1, 0):
            continue
        yield {"name": f"single n{n} D{d} U{u}", "mode": "single", "n": n, "perm": 2, "d": d, "u": [u], "weight": 1}
    yield {"name": "two utils", "mode": "single", "n": n, "perm": 1, "d": 1, "u": [2, n - 1], "weight": 2}
    n = 4 if tier == "quick" else 5
    for ds in itertools.combinations(range(n), 2):
        rest = [i for i in range(n) if i not in ds]
        for own in ("same", "diff"):
            yield {"name": f"graph n{n} D{ds} {own}", "mode": "graph", "n": n, "perm": 0, "ds": list(ds),
                   "us": rest[-2:], "own": own, "weight": 3}
    yield {"name": "three decisions", "mode": "graph", "n": 5, "perm": 1, "ds": [0, 1, 2], "us": [3, 4],
           "own": "mixed", "weight": 5}
    # rings of decisions that rely on each other: only links from decisions
    for own in ("same", "three"):
        for k in (3,) if tier == "quick" else (3, 4):
            yield {"name": f"ring of {k} {own}", "mode": "graph", "n": 2 * k, "perm": 2, "ds": list(range(k)), "us": list(range(k, 2 * k)),
                   "own": own, "weight": 5, "ring": True}


def body(ctx, cfg):
    import pycid
    topo = names(cfg["n"], cfg["perm"])
    if cfg["mode"] == "single":
        d = topo[cfg["d"]]
        us = [topo[i] for i in cfg["u"]]
        g, G = diagram(ctx, topo, {"a": [d]}, {"a": us, "b": []})
        for v in topo:
            st, r = ctx.call(g.is_r_reachable, d, v)
            ctx.out("r", (st, r))
            ctx.check("no error", st == "ok")
            ctx.tag(f"r:{r}")
            ctx.check(f"relevance of {v} to {d}", iff(r, relevant(G, d, v, us)))
        return
    ds = [topo[i] for i in cfg["ds"]]
    us = [topo[i] for i in cfg["us"]]
    if cfg["own"] == "same":
        decs, utils = {"a": ds, "b": []}, {"b": [], "a": us}
    elif cfg["own"] == "diff":
        decs, utils = {1: [ds[0]], 0: [ds[1]]}, {0: [us[0]], 1: us[1:]}
    elif cfg["own"] == "three":
        decs, utils = {i: [d] for i, d in enumerate(ds)}, {i: [u] for i, u in enumerate(us)}
    else:
        decs, utils = {1: [ds[0], ds[2]], 0: [ds[1]]}, {0: [us[0]], 1: us[1:]}
    owner = {d: a for a, l in decs.items() for d in l}
    absent = [(a, b) for l in (ds, us) for a, b in itertools.combinations(l, 2)] if cfg.get("ring") else ()
    g, G = diagram(ctx, topo, decs, utils, absent=absent)
    rel = {(a, b): relevant(G, a, b, utils[owner[a]]) for a, b in itertools.permutations(ds, 2)}
    st, rg = ctx.call(pycid.RelevanceGraph, g)
    ctx.check("no error", st == "ok")
    ctx.check("relevance graph nodes", set(rg.nodes) == set(ds))
    for (a, b), s in rel.items():
        has = rg.has_edge(a, b)
        ctx.tag(f"edge:{has}")
        ctx.check(f"relevance edge {a}->{b}", iff(has, s))
    ctx.check("only decision edges", all(e in rel for e in rg.edges))
    ctx.out("edges", sorted(rg.edges))

    def acyclic(nodes):
        R = gspec.SG(nodes, {k: t for k, t in rel.items() if k[0] in nodes and k[1] in nodes})
        return Not(Or(*[R.reach(x, x) for x in nodes]))

    st, r = ctx.call(rg.is_acyclic)
    ctx.check("relevance graph acyclic", iff(r, acyclic(ds)) if st == "ok" else False)
    ctx.tag(f"acyclic:{r}")
    for agent in list(utils) + [None]:
        st, r = ctx.call(g.sufficient_recall, agent) if agent is not None else ctx.call(g.sufficient_recall)
        ctx.out("recall", (st, r))
        ctx.check("no error", st == "ok")
        ctx.tag(f"recall:{r}")
        spec = acyclic(decs[agent]) if agent is not None else And(*[acyclic(l) for l in decs.values()])
        ctx.check(f"sufficient recall of {agent}", iff(r, spec))
    # sets of decisions / nodes: some pair
    st, r = ctx.call(g.is_r_reachable, ds, us)
    ctx.check("no error", st == "ok")
    ctx.check("relevance of sets", iff(r, Or(*[relevant(G, a, b, utils[owner[a]]) for a in ds for b in us])))
    st, r = ctx.call(g.is_s_reachable, ds[0], ds[1])
    ctx.check("s-reachability", iff(r, rel[ds[0], ds[1]]) if st == "ok" else False)
    # any iterable will do: lists, sets, views, iterators
    first, rest = ds[0], ds[1:]
    one = Or(*[rel[first, b] for b in rest])
    for form in (list(rest), tuple(rest), iter(rest), dict.fromkeys(rest).keys()):
        st, r = ctx.call(g.is_s_reachable, first, form)
        ctx.check("s-reachability of a set", iff(r, one) if st == "ok" else False)
    some = Or(*[rel[a, first] for a in rest])
    st, r = ctx.call(g.is_s_reachable, set(rest), first)
    ctx.check("s-reachability from a set", iff(r, some) if st == "ok" else False)
    st, r = ctx.call(g.is_r_reachable, iter(ds), iter(us))
    ctx.check("relevance of iterated sets",
              iff(r, Or(*[relevant(G, a, b, utils[owner[a]]) for a in ds for b in us])) if st == "ok" else False)
    st, rg = ctx.call(pycid.RelevanceGraph, g, iter(rest + [first]))
    ctx.check("no error", st == "ok")
    if st == "ok":
        ctx.check("relevance graph of given decisions", And(*[iff(rg.has_edge(a, b), t) for (a, b), t in rel.items()]))
