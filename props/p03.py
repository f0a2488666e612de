"""P03 back-door, indirect front-door and decision-free path tests."""
import itertools

from symx.gcommon import diagram, names
from symx.gspec import And, Not, Or, iff
from props.p01 import observed

BOUNDS = {"quick": "all DAGs on 4 nodes, all ordered pairs and observed sets; all DAGs on 5 nodes for selected pairs; "
                   "decision-free paths: all DAGs on 5 nodes, every decision placement",
          "thorough": "all DAGs on 5 nodes, all ordered pairs and observed sets"}
WITNESS = ["back:True", "back:False", "front:True", "front:False", "free:True", "free:False"]
OUTSIDE = "equal endpoints; observed sets containing an endpoint"


def configs(tier):
    for i, j in itertools.permutations(range(4), 2):
        yield {"name": f"trail n4 {i}->{j}", "mode": "trail", "n": 4, "perm": (i + 2 * j) % 3, "x": i, "y": j}
    five = list(itertools.permutations(range(5), 2)) if tier == "thorough" else [(2, 1), (1, 3), (2, 3), (0, 2)]
    for i, j in five:
        for w in ("back", "front"):
            yield {"name": f"{w} n5 {i}->{j}", "mode": w, "n": 5, "perm": (i + j) % 3, "x": i, "y": j, "weight": 9}
    for i, j in itertools.permutations(range(5), 2):
        if i < j or (i + j) % 4 == 0:
            yield {"name": f"free {i}->{j}", "mode": "free", "n": 5, "perm": (i + j) % 3, "x": i, "y": j, "weight": 5}


def body(ctx, cfg):
    from pycid.core import get_paths as gp
    topo = names(cfg["n"], cfg["perm"])
    x, y = topo[cfg["x"]], topo[cfg["y"]]
    if cfg["mode"] == "free":
        import pycid
        decs = [v for v in topo if ctx.bool(f"d:{v}")]
        g, G = diagram(ctx, topo, {0: decs[::2], 1: decs[1::2]}, {0: [], 1: []})
        st, r = ctx.call(gp.directed_decision_free_path, g, x, y)
        ctx.out("free", (st, r))
        ctx.check("no error", st == "ok")
        ctx.tag(f"free:{r}")
        ctx.check("decision-free path", iff(r, G.dipaths(x, y, lambda p: not set(p[1:-1]) & set(decs))))
        return
    g, G = diagram(ctx, topo, kind="CBN")
    Z, obs = observed(ctx, topo, (x, y))
    seqs = list(G.seqs(x, y))
    if cfg["mode"] in ("trail", "back"):
        st, r = ctx.call(gp.is_active_backdoor_trail, g, x, y, obs)
        ctx.out("back", (st, r))
        ctx.check("no error", st == "ok")
        ctx.tag(f"back:{r}")
        ctx.check("back-door", iff(r, Or(*[And(G.is_path(p), G.e(p[1], p[0]), G.active(p, Z)) for p in seqs])))
    if cfg["mode"] in ("trail", "front"):
        st, r = ctx.call(gp.is_active_indirect_frontdoor_trail, g, x, y, obs)
        ctx.out("front", (st, r))
        ctx.check("no error", st == "ok")
        ctx.tag(f"front:{r}")
        spec = Or(*[And(G.is_path(p), G.e(p[0], p[1]), G.active(p, Z),
                        Or(*[G.collider(p, i) for i in range(1, len(p) - 1)])) for p in seqs])
        ctx.check("indirect front-door", iff(r, spec))
