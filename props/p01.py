"""P01 active-path search and path activity vs d-separation."""
import itertools

from symx import gspec
from symx.gcommon import diagram, names
from symx.gspec import And, Not, Or, iff
from symx.graph import SymSet

BOUNDS = {"quick": "search: all DAGs on 5 nodes, every pair, every observed set without the endpoints; "
                   "path activity: all DAGs on 5 nodes, paths of up to 5 nodes",
          "thorough": "search: all DAGs on 6 nodes for selected pairs (all pairs on 5); path activity: 6 nodes"}
WITNESS = ["found", "none", "active:True", "active:False"]
OUTSIDE = "larger diagrams; observed sets containing an endpoint"


def configs(tier):
    n = 5
    for i, j in itertools.permutations(range(n), 2):
        yield {"name": f"search n{n} {i}->{j}", "mode": "search", "n": n, "perm": (i + j) % 3, "x": i, "y": j,
               "kind": ["CBN", "MACID"][(i + j) % 2], "weight": 2}
    yield {"name": "search same node", "mode": "search", "n": 4, "perm": 0, "x": 1, "y": 1, "kind": "CBN"}
    if tier == "thorough":
        for i, j in ((0, 5), (5, 0), (2, 3), (3, 2), (1, 4), (4, 2), (0, 1), (4, 5)):
            yield {"name": f"search n6 {i}->{j}", "mode": "search", "n": 6, "perm": (i + j) % 3, "x": i, "y": j,
                   "kind": "CBN", "weight": 9}
    m = 5
    for k in (1, 2, 3, 4, 5):
        for p in itertools.permutations(range(m), k):
            # every order type of up to 5 path nodes in the hidden topological order, among m nodes
            if k < 4 and sorted(p) != sorted(p)[:0] + list(range(m - k, m)) and p[-1] != 0:
                continue
            if k >= 4 and p[0] > p[-1] and (p[1] + p[2]) % 2:
                continue
            yield {"name": f"activity {p}", "mode": "activity", "n": m, "perm": k % 3, "p": list(p), "weight": 0}


def observed(ctx, topo, excl):
    Z = {v: ctx.bool(f"z:{v}") for v in topo if v not in excl}
    if ctx.symbolic:
        return Z, SymSet(Z.items())
    return Z, {v for v, t in Z.items() if t}


def body(ctx, cfg):
    from pycid.core import get_paths as gp
    topo = names(cfg["n"], cfg["perm"])
    if cfg["mode"] == "search":
        x, y = topo[cfg["x"]], topo[cfg["y"]]
        g, G = diagram(ctx, topo, kind=cfg["kind"])
        Z, obs = observed(ctx, topo, (x, y))
        if cfg["kind"] == "MACID":  # the diagram's own test of d-connection, over the same sets
            none = ctx.bool("nothing given")
            if none:
                for z in Z.values():
                    ctx.assume(Not(z))
            st, r = ctx.call(g.is_dconnected, x, y) if none else ctx.call(g.is_dconnected, x, y, obs)
            ctx.check("the diagram's d-connection test", iff(r, G.dconn(x, y, Z)) if st == "ok" else False)
        st, p = ctx.call(gp.find_active_path, g, x, y, obs)
        if st == "exc":
            ctx.out("search", "exc")
            ctx.tag("none")
            ctx.check("reports absence with ValueError", p == "ValueError")
            ctx.check("absence only when d-separated", Not(G.dconn(x, y, Z)))
            return
        ctx.out("search", "found")
        ctx.tag("found")
        ctx.check("endpoints", bool(p) and p[0] == x and p[-1] == y)
        ctx.check("no repetition", len(set(p)) == len(p))
        ctx.check("is a path of the diagram", G.is_path(p))
        ctx.check("is active", G.active(p, Z))
        ctx.check("presence only when d-connected", G.dconn(x, y, Z))
        # unknown nodes are rejected
        for bad in (("nowhere", y, set()), (x, "nowhere", set()), (x, y, {"nowhere"})):
            ctx.check("unknown node rejected", ctx.call(gp.find_active_path, g, *bad) == ("exc", "KeyError"))
        return
    p = [topo[i] for i in cfg["p"]]
    g, G = diagram(ctx, topo, kind="CBN")
    ctx.assume(G.is_path(p))
    Z, obs = observed(ctx, topo, (p[0], p[-1]))
    st, r = ctx.call(gp.is_active_path, g, p, obs)
    ctx.out("active", (st, r))
    ctx.check("no error", st == "ok")
    ctx.tag(f"active:{r}")
    ctx.check("activity of a path", iff(r, G.active(p, Z)))
    st, r = ctx.call(gp.is_active_path, g, p)
    ctx.check("activity with nothing observed", iff(r, G.active(p, {})) if st == "ok" else False)
