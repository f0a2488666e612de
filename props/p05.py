"""P05 subgames, component ordering, topological order."""
import itertools

from symx import gspec
from symx.gcommon import diagram, names
from symx.gspec import And, Not, Or, iff, relevant

BOUNDS = {"quick": "all DAGs on 5 nodes with 3 decisions (placements listed in configs()), 1-2 agents; topological "
                   "order: all DAGs on 4 nodes, every requested subset, and on 6 nodes for fixed subsets",
          "thorough": "all DAGs on 6 nodes with 3-4 decisions; topological order on 5 and 7 nodes"}
WITNESS = ["components:1", "components:2", "components:3", "order"]
OUTSIDE = "larger diagrams, more decisions"


def configs(tier):
    n = 5
    k = 0
    for ds in itertools.combinations(range(n), 3):
        rest = [i for i in range(n) if i not in ds]
        if rest[-1] != n - 1:
            continue
        for own in ("same", "mixed", "three"):
            k += 1
            yield {"name": f"sg n{n} D{ds} {own}", "mode": "sg", "n": n, "perm": k % 3, "ds": list(ds), "us": rest,
                   "own": own, "weight": 3}
    yield {"name": "sg one decision", "mode": "sg", "n": 3, "perm": 0, "ds": [1], "us": [0, 2], "own": "same"}
    yield {"name": "sg two", "mode": "sg", "n": 4, "perm": 1, "ds": [1, 2], "us": [0, 3], "own": "mixed"}
    if tier == "thorough":
        for ds in itertools.combinations(range(5), 3):
            for own in ("same", "mixed", "three"):
                yield {"name": f"sg n6 D{ds} {own}", "mode": "sg", "n": 6, "perm": len(ds) % 3, "ds": list(ds),
                       "us": [i for i in range(6) if i not in ds], "own": own, "weight": 9}
        for own in ("same", "mixed", "three"):
            yield {"name": f"sg n6 4 decisions {own}", "mode": "sg", "n": 6, "perm": 2, "ds": [0, 1, 2, 3],
                   "us": [4, 5], "own": own, "weight": 9}
    m = 4 if tier == "quick" else 5
    for p in range(3):
        yield {"name": f"order n{m} {p}", "mode": "order", "n": m, "perm": p, "nomerge": True, "weight": 2}
        yield {"name": f"order merged {p}", "mode": "order", "n": m + 2, "perm": p, "fixed": [0, 2, 3, 5][p:]}


def owners(ds, us, own):
    if own == "same":
        return {"a": list(ds), "b": []}, {"b": [], "a": list(us)}
    if own == "mixed":
        return {1: [ds[0]] + ds[2:], 0: ds[1:2]}, {0: us[:1], 1: us[1:]}
    return {"x": ds[:1], "y": ds[1:2], "z": ds[2:]}, {"x": us[:1], "y": us[1:], "z": []}


def body(ctx, cfg):
    import pycid
    topo = names(cfg["n"], cfg["perm"])
    if cfg["mode"] == "order":
        return order(ctx, cfg, topo)
    ds = [topo[i] for i in cfg["ds"]]
    us = [topo[i] for i in cfg["us"]]
    decs, utils = owners(ds, us, cfg["own"])
    owner = {d: a for a, l in decs.items() for d in l}
    g, G = diagram(ctx, topo, decs, utils)
    rel = {(a, b): relevant(G, a, b, utils[owner[a]]) for a, b in itertools.permutations(ds, 2)}
    R = gspec.SG(ds, rel)
    st, con = ctx.call(pycid.CondensedRelevanceGraph, g) if hasattr(pycid, "CondensedRelevanceGraph") else \
        ctx.call(_con(), g)
    ctx.check("no error", st == "ok")
    st, comps = ctx.call(con.get_scc_topological_ordering)
    ctx.check("no error", st == "ok")
    ctx.tag(f"components:{len(comps)}")
    flat = [d for c in comps for d in c]
    ctx.check("each decision once", sorted(flat) == sorted(ds) and all(len(c) > 0 for c in comps))
    idx = {d: i for i, c in enumerate(comps) for d in c}
    for a, b in itertools.combinations(ds, 2):
        ctx.check(f"{a},{b} in one component", iff(idx[a] == idx[b], And(R.reach(a, b), R.reach(b, a))))
    for (a, b), t in rel.items():
        if idx[a] > idx[b]:
            ctx.check(f"relevance {a}->{b} goes forward", Not(t))
    ctx.out("components", sorted(sorted(c) for c in comps))
    st, rg = ctx.call(pycid.RelevanceGraph, g)
    st, sccs = ctx.call(rg.get_sccs)
    ctx.check("components of the relevance graph", st == "ok" and sorted(map(sorted, sccs)) == sorted(map(sorted, comps)))
    st, mp = ctx.call(con.get_decisions_in_scc)
    ctx.check("component map", st == "ok" and sorted(sorted(c) for c in mp.values()) == sorted(map(sorted, comps)))
    st, sgs = ctx.call(g.decs_in_each_maid_subgame)
    ctx.check("no error", st == "ok")
    got = [frozenset(s) for s in sgs]
    ctx.out("subgames", sorted(sorted(s) for s in got))
    ctx.check("each subgame once", len(set(got)) == len(got))
    for k in range(len(ds) + 1):
        for S in map(frozenset, itertools.combinations(ds, k)):
            closed = And(k > 0, *[Not(t) for (a, b), t in rel.items() if a in S and b not in S])
            ctx.check(f"{sorted(S)} is a subgame", iff(S in got, closed))


def _con():
    from pycid.core.relevance_graph import CondensedRelevanceGraph
    return CondensedRelevanceGraph


def order(ctx, cfg, topo):
    n = cfg["n"]
    g, G = diagram(ctx, topo, {"a": topo[1::2]}, {"a": topo[2::2]}, order=topo[::-1] if cfg["perm"] else topo)
    if "fixed" in cfg:
        want = [topo[i] for i in cfg["fixed"] if i < n]
    else:
        want = [v for v in topo if ctx.bool(f"w:{v}")]
    for req, arg in ((want, [want]), (topo[1::2], []), (topo, [topo])):
        st, r = ctx.call(g.get_valid_order, *arg)
        ctx.check("no error", st == "ok")
        ctx.tag("order")
        ctx.check("exactly the requested nodes", sorted(r) == sorted(req))
        for i, a in enumerate(r):
            for b in r[:i]:
                ctx.check("ancestors first", Not(G.reach(a, b)))
        ctx.out("order", sorted(r))
    ctx.check("unknown node refused", ctx.call(g.get_valid_order, [topo[0], "nowhere"])[0] == "exc")
