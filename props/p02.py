"""P02 path enumeration and classification."""
import itertools

from symx.gcommon import diagram, names
from symx.gspec import And, Not, Or, iff

BOUNDS = {"quick": "all DAGs on 5 nodes, selected ordered pairs covering every order type; motifs on paths of up to "
                   "5 nodes", "thorough": "all DAGs on 5 nodes and every ordered pair; 6 nodes for directed paths"}
WITNESS = ["dir", "undir", "motif:forward", "motif:backward", "motif:fork", "motif:collider", "motif:endpoint"]


def configs(tier):
    n = 5
    pairs = list(itertools.permutations(range(n), 2))
    for i, j in pairs:
        yield {"name": f"dir {i}->{j}", "mode": "dir", "n": n, "perm": (i + j) % 3, "x": i, "y": j, "weight": 1}
    for i, j in pairs if tier == "thorough" else [(0, 4), (4, 0), (1, 3), (3, 1), (2, 0), (0, 1), (3, 4), (2, 3)]:
        yield {"name": f"undir {i}->{j}", "mode": "undir", "n": n, "perm": (i + j) % 3, "x": i, "y": j, "weight": 4}
    if tier == "thorough":
        for i, j in ((0, 5), (1, 5), (0, 4), (1, 4)):
            yield {"name": f"dir n6 {i}->{j}", "mode": "dir", "n": 6, "perm": 1, "x": i, "y": j, "weight": 8}
    yield {"name": "same dir", "mode": "dir", "n": 4, "perm": 0, "x": 2, "y": 2}
    yield {"name": "same undir", "mode": "undir", "n": 4, "perm": 0, "x": 2, "y": 2}
    for k in (2, 3, 4, 5):
        for p in itertools.permutations(range(k), k):
            if k == 5 and tier == "quick" and (p[0] + 2 * p[1] + p[3]) % 4:
                continue
            yield {"name": f"motif {p}", "mode": "motif", "n": k, "perm": k % 3, "p": list(p), "weight": 0}


def body(ctx, cfg):
    from pycid.core import get_paths as gp
    topo = names(cfg["n"], cfg["perm"])
    g, G = diagram(ctx, topo, kind="CBN")
    if cfg["mode"] in ("dir", "undir"):
        x, y = topo[cfg["x"]], topo[cfg["y"]]
        fn = gp.find_all_dir_paths if cfg["mode"] == "dir" else gp.find_all_undir_paths
        st, r = ctx.call(lambda: [tuple(p) for p in fn(g, x, y)])
        ctx.out("paths", (st, sorted(r) if st == "ok" else r))
        ctx.check("no error", st == "ok")
        ctx.tag(cfg["mode"])
        ctx.check("each path once", len(set(r)) == len(r))
        test = G.is_dipath if cfg["mode"] == "dir" else G.is_path
        seqs = {tuple(p) for p in G.seqs(x, y)}
        ctx.check("only repetition-free paths between the endpoints", set(r) <= seqs)
        ctx.check("exactly the paths of the diagram", And(*[iff(p in set(r), test(list(p))) for p in sorted(seqs)]))
        ctx.check("unknown node rejected", ctx.call(fn, g, x, "nowhere") == ("exc", "KeyError"))
        return
    p = [topo[i] for i in cfg["p"]]
    ctx.assume(G.is_path(p))
    st, ms = ctx.call(gp.get_motifs, g, p)
    ctx.out("motifs", (st, ms))
    ctx.check("no error", st == "ok" and len(ms) == len(p))
    for i, m in enumerate(ms):
        ctx.tag(f"motif:{m}")
        if i == len(p) - 1:
            ctx.check("last is endpoint", m == "endpoint")
            continue
        out_ = G.e(p[i], p[i + 1])
        if i == 0:
            ctx.check("first edge direction", {"forward": out_, "backward": Not(out_)}.get(m, False))
        else:
            in_ = G.e(p[i - 1], p[i])
            spec = {"forward": And(in_, out_), "backward": Not(Or(in_, out_)), "fork": And(Not(in_), out_),
                    "collider": And(in_, Not(out_))}
            ctx.check(f"motif at {i}", spec.get(m, False))
            ctx.check("single motif agrees", ctx.call(gp.get_motif, g, p, i) == ("ok", m))
    ctx.check("index out of range rejected", ctx.call(gp.get_motif, g, p, len(p)) == ("exc", "IndexError"))
    st, es = ctx.call(gp._get_path_edges, g, p) if hasattr(gp, "_get_path_edges") else ("ok", None)
    if es is not None:
        ctx.check("edge list", st == "ok" and len(es) == len(p) - 1)
        ctx.check("edge directions", And(*[Or(And(e == (a, b), G.e(a, b)), And(e == (b, a), G.e(b, a)))
                                           for e, a, b in zip(es, p, p[1:])]))
