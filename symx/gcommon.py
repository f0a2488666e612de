"""Symbolic diagrams for the graph harnesses."""
import importlib
import itertools

from . import gspec
from .terms import And, Not, Or

def module(name):
    return importlib.import_module(name)


POOL = ["Kiwi", "Lime", "Acai", "Pear", "Date", "Fig", "Nut", "Oats"]


def names(n, perm=0):
    base = POOL[:n]
    if perm == 0:
        return base
    if perm == 1:
        return base[::-1]
    return base[1::2] + base[0::2]


def edge_terms(ctx, topo, forced=(), absent=()):
    E = {}
    for u, v in itertools.combinations(topo, 2):
        if (u, v) in forced:
            E[u, v] = True
        elif (u, v) in absent:
            E[u, v] = False
        else:
            E[u, v] = ctx.bool(f"e:{u}>{v}")
    return E


def fill(ctx, g, order, E):
    """Put the edges into an edgeless real diagram."""
    g.add_nodes_from(order)
    if ctx.symbolic:
        from . import graph
        graph.make_symbolic(g, {k: t for k, t in E.items() if t is not False})
    else:
        for (u, v), t in E.items():
            if t:
                g.add_edge(u, v)
    return g


def diagram(ctx, topo, decs=None, utils=None, order=None, kind="MACID", E=None, **kw):
    """decs / utils: agent -> node list.  Returns (real diagram, spec graph)."""
    import pycid
    E = edge_terms(ctx, topo, **kw) if E is None else E
    if kind == "CBN":
        g = pycid.CausalBayesianNetwork()
    elif kind == "CID":
        g = pycid.CID(decisions=list((decs or {}).get(0, [])), utilities=list((utils or {}).get(0, [])))
    else:
        cls = pycid.MACID if kind == "MACID" else pycid.MACIDBase
        g = cls(agent_decisions={a: list(v) for a, v in (decs or {}).items()},
                agent_utilities={a: list(v) for a, v in (utils or {}).items()})
    fill(ctx, g, order or topo, E)
    return g, gspec.SG(topo, E)


def snapshot_edges(g, topo):
    """Edge terms of a real diagram as seen through its own edge test."""
    return {(u, v): _has(g, u, v) for u in topo for v in topo if u != v}


def _has(g, u, v):
    if getattr(g, "_E", None) is not None:
        g._pending and g._settle()
        return g._E.get((u, v), False)
    return g.has_edge(u, v)


def single_outcomes(ctx, label, status, value, spec, exc_ok=()):
    """Boolean answer must equal spec."""
    ctx.out(label, (status, value))
    if status == "exc":
        ctx.check(label + ": raised " + value, value in exc_ok)
        return
    ctx.tag(f"{label}:answered")
    ctx.check(label, gspec.iff(value, spec) if not isinstance(value, bool) or not isinstance(spec, bool)
              else value == spec)


def refusals(ctx, topo, forms):
    """Several agents and unknown nodes are refused.  forms: (label, function, arity);
    arity 2: (decision, node); 1: (decision); 3: (node); 0: ().  Negative: recall is not required."""
    import pycid
    a, d, x, u = topo
    E = edge_terms(ctx, topo)
    two, _ = diagram(ctx, topo, {0: [d], 1: [x]}, {0: [u], 1: [a]}, kind="MACID", E=dict(E))
    one, _ = diagram(ctx, topo, {0: [d]}, {0: [u]}, kind="CID", E=dict(E))
    for label, f, ar in forms:
        k = abs(ar)
        args = {2: (d, a), 1: (d,), 3: (d, a), 0: (d,)}[k]
        ctx.check(f"{label}: several agents refused", ctx.call(f, two, *args)[0] == "exc")
        if k in (2, 3):
            ctx.check(f"{label}: unknown node refused", ctx.call(f, one, d, "nowhere")[0] == "exc")
        if k in (2, 1):
            bad = ("nowhere", a) if k == 2 else ("nowhere",)
            ctx.check(f"{label}: unknown decision refused", ctx.call(f, one, *bad)[0] == "exc")
        st, r = ctx.call(f, one, *args)
        ctx.check(f"{label}: one agent, one decision is answered", st == "ok")
        ctx.out(label, sorted(r) if isinstance(r, (list, tuple)) else bool(r))
