"""P12 queries that depend on an unspecified policy are refused, all others answered."""
import itertools

from symx import gspec
from symx.gcommon import edge_terms, fill, names
from symx.gspec import And, Not, Or, iff, known

BOUNDS = {"quick": "all DAGs on 4 nodes with every choice of queried, observed and intervened nodes; all DAGs on 5 "
                   "nodes with the choices listed in configs(); 1-3 decisions with or without a policy",
          "thorough": "all DAGs on 5 nodes with every choice of observed and intervened nodes, on 6 nodes for listed "
                      "choices"}
WITNESS = ["refused", "answered", "bad outcome refused"]
ASSUMPTIONS = ["The answer of an accepted query is CausalBayesianNetwork.query's (decided by P14): in symbolic runs it "
               "is a stub that answers, in concrete runs the real one."]
OUTSIDE = "queries over unconnected nodes; nodes without any distribution"


def configs(tier):
    k = 0
    for ds in ([1], [0, 2], [1, 2], [2, 3], [0, 1, 3]):
        for q in range(4):
            k += 1
            yield {"name": f"n4 D{ds} query {q}", "n": 4, "perm": k % 3, "ds": ds, "q": [q], "cls": k % 3, "weight": 2}
    for ds, q in (([1], [2, 3]), ([0, 2], [1, 3])):
        yield {"name": f"n4 D{ds} query {q}", "n": 4, "perm": 1, "ds": ds, "q": q, "cls": 1, "weight": 3}
    for ds, q, c, i in (([1], [4], [3], [2]), ([1, 3], [4], [2], [3]), ([2], [0], [3, 4], []), ([0, 3], [4], [1], [2]),
                        ([1, 2], [4], [0, 3], []), ([2], [4, 1], [3], [0])):
        yield {"name": f"n5 D{ds} {q}|{c} do{i}", "n": 5, "perm": 2, "ds": ds, "q": q, "fix": [c, i], "cls": 1,
               "weight": 4}
    if tier == "thorough":
        for ds in ([2], [1, 3], [2, 3], [0, 1, 3]):
            for q in (0, 1, 3, 4):
                yield {"name": f"n5 D{ds} query {q}", "n": 5, "perm": q % 3, "ds": ds, "q": [q], "cls": 1, "weight": 9}
        for ds, q, c, i in (([1, 3], [5], [2, 4], [0]), ([2], [5], [4], [3]), ([1, 2], [4], [0, 5], [3])):
            yield {"name": f"n6 D{ds} {q}|{c} do{i}", "n": 6, "perm": 2, "ds": ds, "q": q, "fix": [c, i], "cls": 1,
                   "weight": 9}
    yield {"name": "outcome domain", "n": 3, "perm": 0, "ds": [1], "q": [2], "cls": 1, "bad": True}


_real = []


def body(ctx, cfg):
    import pycid
    from pgmpy.factors.discrete import TabularCPD
    CBN = pycid.CausalBayesianNetwork
    if not _real:
        _real.append(CBN.query)
    if ctx.symbolic:
        CBN.query = lambda self, query, context, intervention=None: "answer"
    try:
        run(ctx, cfg, pycid, TabularCPD)
    finally:
        CBN.query = _real[0]


def run(ctx, cfg, pycid, TabularCPD):
    topo = names(cfg["n"], cfg["perm"])
    ds = [topo[i] for i in cfg["ds"]]
    qs = [topo[i] for i in cfg["q"]]
    open_ = {d: ctx.bool(f"open:{d}") for d in ds}  # no policy yet
    if cfg["cls"] == 0:
        g = pycid.CID(decisions=list(ds), utilities=[topo[-1]] if topo[-1] not in ds else [])
    else:
        cls = pycid.MACID if cfg["cls"] == 1 else pycid.MACIDBase
        g = cls(agent_decisions={0: ds[:1], 1: ds[1:]}, agent_utilities={0: [], 1: []})
    g.add_nodes_from(topo)
    noparents = topo[0]
    for n in topo:
        if n in ds and open_[n]:
            g.model[n] = [0, 1]
        elif n == noparents and n not in ds:
            g.model[n] = TabularCPD(n, 2, [[0.25], [0.75]], state_names={n: [0, 1]})
        elif n == topo[-1]:
            g.model[n] = lambda **pv: {0: 0.5, 1: 0.5}
        else:
            g.model[n] = {0: 0.5, 1: 0.5}
    open_ = {d: bool(open_[d]) for d in ds}
    E = edge_terms(ctx, topo)
    fill(ctx, g, topo, E)
    if not ctx.symbolic:  # functions of arbitrary parents: refresh the table for the final graph
        g.model[topo[-1]] = g.model[topo[-1]]
    G = gspec.SG(topo, E)
    if cfg.get("bad"):
        for n in (noparents, ds[0]):
            ctx.check("outcome outside the domain is refused",
                      ctx.call(g.query, qs, {n: 7})[0] == "exc")
        ctx.tag("bad outcome refused")
        st, r = ctx.call(g.query, qs, {noparents: 1, ds[0]: 0}, {})
        ctx.check("answered", st == "ok")
        return
    if "fix" in cfg:
        obs, do = [[topo[i] for i in l] for l in cfg["fix"]]
    else:
        part = {n: ctx.choice(f"use:{n}", ["none", "observed", "intervened"]) for n in topo if n not in qs}
        obs = [n for n in part if part[n] == "observed"]
        do = [n for n in part if part[n] == "intervened"]
    H = G.without({(u, v): True for u in topo for v in do})
    Z = {n: True for n in obs + do}
    spec = Or(*[H.plus_node("^", d).dconn("^", q, Z) for d in ds if open_[d] for q in qs])
    form = [list, tuple, iter, lambda l: dict.fromkeys(l).keys()][(cfg["n"] + len(qs) + len(obs) + 2 * len(do)) % 4]
    args = [form(qs), {n: 1 for n in obs}]
    if do or ctx.bool("pass empty intervention"):
        args.append({n: 0 for n in do})
    if len(qs) == 2 and not ctx.symbolic:
        U = {n: {m for m in topo if H.e(n, m) or H.e(m, n)} for n in topo}
        seen, todo = {qs[0]}, [qs[0]]
        while todo:
            for m in U[todo.pop()] - seen:
                seen.add(m)
                todo.append(m)
        if qs[1] not in seen and not spec:
            return ctx.out("status", "ok")  # unconnected nodes are outside the property
    st, r = ctx.call(g.query, *args)
    ctx.out("status", st)
    ctx.tag("refused" if st == "exc" else "answered")
    ctx.check("refused exactly when it depends on an open policy", iff(st == "exc", spec))
    ctx.check("all nodes still there", list(g.nodes) == topo)
