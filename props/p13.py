"""P13 random generators respect every requested constraint."""
import sys

import networkx as nx

from symx import numeric
from symx.numeric import DRAWS, random_stand_ins
from symx.terms import And, Not, Or

ENGINE = "numeric"
BOUNDS = {"quick": "every requested density (real, 0 to 1) and in-degree bound (integer, 0 to 5); DAGs on 1-4 nodes with every outcome "
                   "of up to 14 draws (some scenarios fix the first draws); diagrams on 1-6 nodes of one to three agents "
                   "with one or two decisions and utilities each, with and without the recall requirement, every "
                   "outcome of the draws that follow a fixed or free DAG, one or two sampling attempts",
          "thorough": "the same with up to 18 draws, DAGs on 5 nodes and diagrams on up to 6 nodes"}
WITNESS = ["dag", "refused", "spanning", "dense", "diagram", "recall added", "attempts exhausted", "with distributions"]
ASSUMPTIONS = ["random and numpy.random return arbitrary values of the requested kind (every draw is a free choice).",
               "Exact real arithmetic for the density."]
OUTSIDE = ("runs that draw more often than the limit (the generators redraw until the constraints hold); more nodes and "
           "agents")


def configs(tier):
    T = tier == "thorough"
    for n in (1, 2, 3):
        yield {"name": f"dag {n}", "kind": "dag", "n": n, "limit": {1: 2, 2: 8, 3: 10 if T else 9}[n], "weight": n}
    for i, s in enumerate(SCRIPTS4):
        yield {"name": f"dag 4 after {s}", "kind": "dag", "n": 4, "limit": 12 + 2 * T, "script": s, "weight": 4}
        yield {"name": f"dag 4 dense after {s}", "kind": "dag", "n": 4, "limit": 14 + 2 * T, "script": s + DENSE, "weight": 4,
               "lo": 0.8}
    yield {"name": "dag 4 sparse", "kind": "dag", "n": 4, "limit": 7, "hi": 0.6, "weight": 6}
    if T:
        for i, s in enumerate(SCRIPTS5):
            yield {"name": f"dag 5 after {s}", "kind": "dag", "n": 5, "limit": len(s) + 6, "script": s, "weight": 9}
    # diagrams: (nodes, decisions, utilities, script of the DAG draws, limit, density)
    for k, (n, d, u, s, limit, lo, hi) in enumerate(DIAGRAMS + (LARGE if T else [])):
        for rec in (False, True):
            for f in ("macidbase", "macid") + (("cid",) if len(d) == 1 else ()):
                if f == "macid" and k % 2:
                    continue
                yield {"name": f"{f} {n} {d} {u} after {s}{' recall' if rec else ''}", "kind": f, "n": n, "d": d, "u": u,
                       "script": s, "limit": limit, "recall": rec, "lo": lo, "hi": hi, "weight": 5}
    yield {"name": "two attempts", "kind": "macidbase", "n": 3, "d": (1,), "u": (1,), "script": (), "limit": 11,
           "recall": False, "lo": 0.7, "hi": 0.9, "attempts": 2, "weight": 6}
    yield {"name": "with distributions", "kind": "macid", "n": 3, "d": (1,), "u": (1,), "script": (), "limit": 9,
           "recall": False, "lo": 0.7, "hi": 0.9, "cpds": True, "weight": 6}
    yield {"name": "lists of diagrams", "kind": "cids", "n": 3, "d": (1,), "u": (1,), "script": (), "limit": 9, "recall": True,
           "lo": 0.7, "hi": 0.7, "weight": 6}
    yield {"name": "lists of multi-agent diagrams", "kind": "macids", "n": 3, "d": (1,), "u": (1,), "script": (), "limit": 11,
           "recall": True, "lo": 0.7, "hi": 0.7, "weight": 6}
    yield {"name": "mismatched agents", "kind": "mismatch", "n": 3, "d": (1, 1), "u": (1,), "script": (), "limit": 9,
           "recall": True, "lo": 0.4, "hi": 0.6}


# draws of the first phase: start, then (new node, neighbour) in turn
SCRIPTS4 = [(0, 0, 0, 0, 0, 0), (3, 0, 0, 0, 1, 0), (1, 1, 0, 0, 1, 0), (2, 0, 0, 1, 1, 0, 0)]
DENSE = (0, 1, 2, 2)
SCRIPTS5 = [(0, 0, 0, 0, 0, 0, 0, 0), (4, 0, 0, 1, 1, 0, 0, 0), (2, 2, 0, 0, 0, 1, 1)]
DIAGRAMS = [
    (1, (0,), (1,), (), 6, 0, 1), (2, (1,), (1,), (), 8, 0, 1), (3, (1,), (1,), (), 8, 0, 0.6), (3, (2,), (1,), (), 9, 0.7, 0.9),
    (4, (1, 1), (1, 1), (1, 0, 0, 0, 1, 0), 12, 0.4, 0.6), (4, (2,), (1,), (0, 0, 0, 0, 1, 0), 14, 0.5, 0.7),
    (4, (2,), (2,), (1, 0, 0, 0, 1, 0), 13, 0.4, 0.6),
    (5, (2,), (1,), (1, 0, 0, 0, 1, 0, 2, 0), 13, 0.4, 0.4), (5, (1, 1), (1, 1), (2, 0, 0, 0, 1, 0, 2, 0), 13, 0.4, 0.4),
    (5, (2, 1), (1, 1), (1, 0, 0, 0, 1, 0, 2, 0), 13, 0.4, 0.4), (5, (2,), (2,), (4, 0, 0, 0, 1, 0, 0, 0), 13, 0.4, 0.4),
    (5, (1, 1, 1), (1, 1, 1), (0, 0, 0, 0, 0, 0, 1, 0, 1), 18, 0.4, 0.4), (6, (1, 1, 1), (1, 1, 1), (0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 2), 20, 0.35, 0.35),
]
LARGE = [(6, (2, 1), (1, 1), (1, 0, 0, 0, 1, 0, 2, 0, 3, 0), 15, 0.33, 0.33), (6, (3,), (1,), (2, 0, 0, 0, 1, 0, 2, 0, 0, 0), 15, 0.33, 0.33),
         (5, (2, 1), (1, 1), (4, 0, 0, 0, 1, 0, 0, 0), 15, 0.5, 0.5), (5, (1, 1), (1, 1), (1, 0, 0, 0, 1, 0, 2, 0), 15, 0.5, 0.5)]


def modules():
    import importlib
    return [importlib.import_module("pycid.random." + m) for m in
            ("random_cid", "random_dag", "random_macid", "random_macidbase")]


def body(ctx, cfg):
    import numpy as np
    import importlib
    rc = importlib.import_module("pycid.random.random_cpd")
    if not ctx.symbolic:
        sys.setrecursionlimit(5000)
    density = ctx.real("density", cfg.get("lo", 0), cfg.get("hi", 1)) if cfg.get("lo", 0) != cfg.get("hi", 1) else cfg["lo"]
    cap = ctx.int("in-degree bound", 0, 5)
    DRAWS.reset(ctx, cfg["limit"], cfg.get("script", ()))
    old = rc.np
    try:
        with random_stand_ins(*modules()):
            rc.np = np  # the distributions themselves are the subject of P25
            run(ctx, cfg, density, cap)
    finally:
        rc.np = old
        DRAWS.reset(None, 0)


def run(ctx, cfg, density, cap):
    n, kind = cfg["n"], cfg["kind"]
    if kind == "dag":
        from pycid.random.random_dag import random_dag
        st, g = ctx.call(random_dag, n, density, cap)
        if st != "ok":
            ctx.tag("refused")
            ctx.check("a refusal is explicit", g == "ValueError")
            m = n * (n - 1) / 2
            # with an in-degree bound of at least n-1 every density up to 1 is possible
            ctx.check("possible requests are served", Not(cap >= max(n - 1, 1)) if ctx.symbolic else cap < max(n - 1, 1))
            ctx.out("refused", True)
            return
        graph_ok(ctx, g, n, density, cap)
        ctx.tag("dag")
        return
    from pycid import CID, MACID, MACIDBase
    d, u = cfg["d"], cfg["u"]
    kw = dict(number_of_nodes=n, sufficient_recall=cfg["recall"], edge_density=density, max_in_degree=cap,
              max_resampling_attempts=cfg.get("attempts", 1), add_cpds=cfg.get("cpds", False))
    if kind == "mismatch":
        from pycid.random.random_macidbase import random_macidbase
        st, r = ctx.call(random_macidbase, agent_decisions_num=d, agent_utilities_num=u, **kw)
        ctx.check("different numbers of agents are refused", st == "exc" and r == "ValueError")
        return
    if kind == "macids":
        from pycid.random.random_macid import random_macids
        st, gs = ctx.call(random_macids, total_nodes_range=(n, n), num_decs_range=(1, 2), num_utils_range=(1, 2),
                          add_cpds=False, sufficient_recall=cfg["recall"], edge_density=density, n_macids=1)
        if st != "ok":
            ctx.check("a refusal is explicit", gs == "ValueError")
            return
        ctx.check("the requested number of diagrams", len(gs) == 1)
        for g in gs:
            ctx.check("the requested class", type(g) is MACID)
            diagram_ok(ctx, cfg, g, n, [1] * len(g.agents), [1] * len(g.agents), 4)
        return
    if kind == "cids":
        from pycid.random.random_cid import random_cids
        st, gs = ctx.call(random_cids, total_nodes_range=(n, n), num_decs_range=(d[0], d[0]), num_utils_range=(u[0], u[0]),
                          add_cpds=True, sufficient_recall=cfg["recall"], edge_density=density, n_cids=1)
        ctx.check("served", st == "ok", lambda: repr(ctx.last_exc))
        if st == "ok":
            ctx.check("the requested number of diagrams", len(gs) == 1)
            for g in gs:
                diagram_ok(ctx, cfg, g, n, d, u, 4)
        return
    if kind == "cid":
        from pycid.random.random_cid import random_cid
        st, g = ctx.call(random_cid, number_of_decisions=d[0], number_of_utilities=u[0], **kw)
    elif kind == "macid":
        from pycid.random.random_macid import random_macid
        st, g = ctx.call(random_macid, agent_decisions_num=d, agent_utilities_num=u, **kw)
    else:
        from pycid.random.random_macidbase import random_macidbase
        st, g = ctx.call(random_macidbase, agent_decisions_num=d, agent_utilities_num=u, **kw)
    if st != "ok":
        ctx.check("a refusal is explicit", g == "ValueError")
        ctx.tag("attempts exhausted")
        ctx.out("refused", True)
        return
    ctx.check("the requested class", type(g) is {"cid": CID, "macid": MACID}.get(kind, MACIDBase))
    diagram_ok(ctx, cfg, g, n, d, u, cap)
    if cfg["recall"] and DRAWS.k > n:
        ctx.tag("recall added")
    if cfg.get("cpds"):
        ctx.tag("with distributions")
        st, r = ctx.call(g.check_model)
        ctx.check("the distributions form a model", st == "ok" and bool(r))
        for x in g.decisions:
            ctx.check("decisions choose between 0 and 1", list(g.model.domain[x]) == [0, 1])


def graph_ok(ctx, g, n, density, cap):
    ctx.check("the requested number of nodes", len(g.nodes) == n)
    ctx.check("acyclic", nx.is_directed_acyclic_graph(g))
    ctx.check("connected", nx.is_connected(nx.Graph(g.edges)) if n > 1 else True)
    ctx.check("no self-loops or lost nodes", n == 1 or len(set(x for e in g.edges for x in e)) == n)
    e = g.number_of_edges()
    m = n * (n - 1) // 2
    if e == n - 1:
        ctx.check("the requested number of edges", density * m < n)
        ctx.tag("spanning")
    else:
        c = And(density * m >= e, density * m < e + 1) if ctx.symbolic else e == int(density * (n * (n - 1) / 2))
        ctx.check("the requested number of edges", e > n - 1 and c)
        ctx.tag("dense")
    degree_ok(ctx, g, cap)
    ctx.out("edges", sorted(g.edges))


def degree_ok(ctx, g, cap):
    worst = max(d for _, d in g.in_degree())
    ctx.check("the in-degree bound", cap >= worst)


def diagram_ok(ctx, cfg, g, n, d, u, cap):
    ctx.tag("diagram")
    ctx.check("the requested number of nodes", len(g.nodes) == n)
    ctx.check("acyclic and connected", nx.is_directed_acyclic_graph(g) and nx.is_connected(nx.Graph([*g.edges, *((x, x) for x in g.nodes)])))
    ctx.check("the requested agents", len(g.agents) == len(d))
    for i, a in enumerate(sorted(g.agents)):
        ctx.check("decisions of the agent", len(g.agent_decisions[a]) == d[i] and set(g.agent_decisions[a]) <= set(g.nodes))
        ctx.check("utilities of the agent", len(g.agent_utilities[a]) == u[i] and set(g.agent_utilities[a]) <= set(g.nodes))
        for x in g.agent_decisions[a]:
            ctx.check("decisions can influence their owner's utilities",
                      bool(nx.descendants(g, x) & set(g.agent_utilities[a])))
        for x in g.agent_utilities[a]:
            ctx.check("utilities have no children", not list(g.successors(x)))
    roles = [x for a in g.agents for x in list(g.agent_decisions[a]) + list(g.agent_utilities[a])]
    ctx.check("one role per node", len(roles) == len(set(roles)) == len(g.decisions) + len(g.utilities))
    degree_ok(ctx, g, cap)
    if cfg["recall"]:
        ctx.check("sufficient recall", g.sufficient_recall())
    ctx.out("edges", sorted(g.edges))
    ctx.out("roles", sorted(map(str, roles)))
