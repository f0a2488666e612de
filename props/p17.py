"""P17 distributions and domains stay in step with the graph under edit histories."""
import itertools
from fractions import Fraction

from symx.ncommon import value_of

ENGINE = "numeric"
BOUNDS = {"quick": "histories of up to two or three edits (by start) of a network on three nodes, starting "
                   "empty, partly or fully specified: replacing a distribution by any of 3-5 kinds per node, adding or "
                   "removing any link (at first also several at once), removing a distribution, intervening, or one edit and then removing any node; every probability symbolic",
          "thorough": "the same with one edit more"}
WITNESS = ["domain grew", "edge added", "edge removed", "intervened", "deferred", "deleted", "policy domain", "cascade",
           "node removed"]
ASSUMPTIONS = ["Exact real arithmetic."]
OUTSIDE = ("relationships given as finished tables of nodes whose parents change; functions whose arguments no longer "
           "match the node's parents")

NODES = "ABC"


class Rel:
    """A relationship: what is given to pycid, and its value on a parent assignment."""

    def __init__(self, given, args, f, domain=None):
        self.given, self.args, self.f, self.domain = given, args, f, domain

    def fits(self, parents):
        return self.args is None or set(self.args) == set(parents)


def relations(ctx, g):
    """name -> list of (label, function giving a Rel)"""
    from pgmpy.factors.discrete import TabularCPD

    from pycid import StochasticFunctionCPD
    p, q, r = (ctx.real(n, 0, 1) for n in "pqr")

    def const(d):
        return lambda: Rel(d, None, lambda pv: d)

    def fn(f, args, kw):
        return lambda: Rel(f, args, lambda pv: f(**pv))

    table = lambda: Rel(TabularCPD("A", 2, [[p], [1 - p]], state_names={"A": [3, 0]}), (), lambda pv: {3: p, 0: 1 - p},
                        [3, 0])
    obj = lambda: Rel(StochasticFunctionCPD("A", lambda: {1: p}, g, domain=[1, 0]), (), lambda pv: {1: p, 0: 1 - p}, [1, 0])
    up = lambda v: {v: q, 7: 1 - q} if v != 7 else {7: 1}
    return {
        "A": [("two", const({0: p, 1: 1 - p})), ("three", const({0: p, 1: (1 - p) / 2, 2: (1 - p) / 2})), ("table", table),
              ("declared", obj)],
        "B": [("copy", fn(lambda A: up(A), ["A"], 0)), ("fixed", fn(lambda A: {0: q, 1: 1 - q} if A else {1: q, 0: 1 - q}, ["A"], 0)),
              ("any", fn(lambda **pv: {sum(pv.values()): q, -1: 1 - q}, None, 1)), ("constant", const({5: q, 4: 1 - q}))],
        "C": [("both", fn(lambda A, B: {A + B: r, -9: 1 - r}, ["A", "B"], 0)), ("of B", fn(lambda B: {B: r, -9: 1 - r}, ["B"], 0)),
              ("of A", fn(lambda A: A, ["A"], 0)), ("any", fn(lambda **pv: {sum(pv.values()): r, -9: 1 - r}, None, 1)),
              ("none", fn(lambda: {0: r, 2: 1 - r}, [], 0))],
    }


STARTS = {  # edges, relationships already there
    "empty chain": ("AB BC", ""),
    "empty triangle": ("AB AC BC", ""),
    "full chain": ("AB BC", "A:two B:copy C:of_B"),
    "full triangle": ("AB AC BC", "A:two B:any C:both"),
    "reverse order": ("AB AC BC", "C:any B:copy A:two"),
    "children first": ("AB BC", "C:of_B B:copy"),
    "no links": ("", "A:three B:constant C:none"),
    "collider": ("AC BC", "A:declared B:constant C:both"),
    "table": ("AB BC", "A:table B:fixed C:any"),
}


def configs(tier):
    deeper = tier == "thorough"
    for s in STARTS:
        firsts = ["A", "B", "C", "link", "other"]
        n = (4 if deeper else 3) - (s in ("full chain", "empty triangle", "collider", "children first"))
        for f in firsts:
            if deeper:
                for f2 in firsts:
                    yield {"name": f"{s}, {n} edits, first {f} then {f2}", "start": s, "n": n, "first": f, "second": f2,
                           "weight": n}
            else:
                yield {"name": f"{s}, {n} edits, first {f}", "start": s, "n": n, "first": f, "weight": n}
    for s in STARTS:  # then a node is removed
        if deeper:
            for f in ("A", "B", "C", "link", "other"):
                yield {"name": f"{s}, an edit of {f}, a node removed", "start": s, "n": 1, "first": f, "drop": True, "weight": 2}
        else:
            yield {"name": f"{s}, an edit, a node removed", "start": s, "n": 1, "drop": True, "weight": 2}
    yield {"name": "decision, an edit, a node removed", "start": "full chain", "n": 1, "dec": True, "drop": True, "weight": 2}
    for f in ("A", "B", "C", "link", "other") if deeper else ("B", "other"):
        yield {"name": f"decision, first {f}", "start": "full chain", "n": 3, "first": f, "dec": True, "weight": 3}


def body(ctx, cfg):
    import pycid
    edges, rels = STARTS[cfg["start"]]
    if cfg.get("dec"):
        g = pycid.CID(decisions=["B"], utilities=[])
        g.add_nodes_from(NODES)
    else:
        g = pycid.CausalBayesianNetwork()
        g.add_nodes_from(NODES)
    E = set()
    for u, v in edges.split():
        g.add_edge(u, v)
        E.add((u, v))
    R = relations(ctx, g)
    if cfg.get("dec"):
        R["B"] += [("domain", lambda: Rel([6, 1], None, lambda pv: {6: Fraction(1, 2), 1: Fraction(1, 2)}, [6, 1]))]
    cur = {}

    def put(v, label):
        rel = dict(R[v])[label.replace("_", " ")]()
        g.model[v] = rel.given
        cur[v] = rel

    for s in rels.split():
        put(*s.split(":"))
    pa = lambda v: [u for u in NODES if (u, v) in E]
    for k in range(cfg["n"]):
        ops = []
        want = cfg.get("first") if k == 0 else cfg.get("second") if k == 1 else None
        for v in NODES:
            if want in (None, v):
                ops += [("set", v, lab) for lab, mk in R[v] if mk().fits(pa(v))]
        for u, v in ("AB", "AC", "BC"):
            if want in (None, "link"):
                ops.append(("unlink" if (u, v) in E else "link", u, v))
        if want in (None, "link") and len(E) > 1 and k == 0:
            ops += [("unlink", *e, *f) for e, f in itertools.combinations(sorted(E), 2)]
        if want in (None, "link") and len(E) < 2 and k == 0:
            ops.append(("link", *"AB", *"BC", *"AC"))
        for v in NODES:
            if want in (None, "other") and v in cur:
                ops.append(("del", v))
                if specified(v, cur, pa):
                    ops += [("do", v, i) for i in (0, -1)]
        if not ops:
            break
        if k:
            ops.append(("stop",))
        op = ctx.choice(f"edit {k}", ops)
        dom0 = {v: list(d) for v, d in g.model.domain.items()}
        if op[0] == "stop":
            break
        if op[0] == "set":
            st, _ = ctx.call(put, op[1], op[2])
            if op[2] == "domain":
                ctx.tag("policy domain")
        elif op[0] == "link":
            new = [op[1:3], op[3:5], op[5:7]]
            st, _ = ctx.call(g.add_edge, op[1], op[2]) if len(op) == 3 else ctx.call(g.add_edges_from, new)
            E |= {e for e in new if e}
            ctx.tag("edge added")
        elif op[0] == "unlink":
            old = [op[1:3], op[3:5]]
            st, _ = ctx.call(g.remove_edge, op[1], op[2]) if len(op) == 3 else ctx.call(g.remove_edges_from, iter(old))
            E -= set(old)
            ctx.tag("edge removed")
        elif op[0] == "del":
            st, _ = ctx.call(g.remove_cpds, op[1])
            del cur[op[1]]
            ctx.tag("deleted")
        else:
            x = g.model.domain[op[1]][op[2]]
            st, _ = ctx.call(g.intervene, {op[1]: x})
            d = {o: int(o == x) for o in g.model.domain[op[1]]}
            cur[op[1]] = Rel(d, None, lambda pv, d=d: d)
            E -= {(u, op[1]) for u in NODES}
            ctx.tag("intervened")
        if st != "ok" and not all(cur[v].fits(pa(v)) for v in cur):
            return  # some function no longer has its node's parents as arguments: may be refused
        ctx.check("the edit goes through", st == "ok", lambda: [op, repr(getattr(ctx, "last_exc", ""))])
        if st != "ok":
            return
        changed = [v for v, d in dom0.items() if g.model.domain.get(v) != d]
        if changed and op[0] == "set":
            ctx.tag("domain grew")
            if any(v != op[1] for v in changed):
                ctx.tag("cascade")
    if cfg.get("drop"):
        return removed(ctx, g, cur, pa, E)
    examine(ctx, g, cur, pa)


def removed(ctx, g, cur, pa, E):
    """A node goes: functions of the other parents are kept, those that need it are averaged over its outcomes."""
    x = ctx.choice("removed node", NODES)
    fine = [v for v in NODES if specified(v, cur, pa)]
    if not all(cur[v].fits(pa(v)) for v in cur):
        return  # a function that does not have its node's parents as arguments has to be replaced first
    doms = {v: list(d) for v, d in g.model.domain.items()}
    st, _ = ctx.call(g.remove_node, x) if ctx.bool("one by one") else ctx.call(g.remove_nodes_from, [x])
    ctx.check("removing a node goes through", st == "ok", lambda: repr(getattr(ctx, "last_exc", "")))
    ctx.tag("node removed")
    kids = [v for v in NODES if (x, v) in E]
    E -= {e for e in E if x in e}
    rest = [v for v in NODES if v != x]
    ctx.check("the node and its links are gone", sorted(g.nodes) == rest and set(g.edges) == E)
    ctx.check("so are its distribution and domain", x not in g.model and x not in g.model.domain
              and all(c.variable != x for c in g.get_cpds()))
    cur.pop(x, None)
    for v in kids:
        if v in cur and not cur[v].fits(pa(v)):
            if v not in fine:
                del cur[v]  # its function needs the removed node
                continue
            if any(g.model.domain[u] != doms[u] for u in pa(v)):
                del cur[v]  # a table for outcomes that another parent no longer has
                continue
            cur[v] = Rel(None, pa(v), average(cur[v].f, x, doms[x]), doms[v])
    examine(ctx, g, cur, pa, rest)


def average(f, x, outcomes):
    def g(pv):
        r = {}
        for o in outcomes:
            d = f({**pv, x: o})
            for k, p in (d if isinstance(d, dict) else {d: 1}).items():
                r[k] = r.get(k, 0) + p * Fraction(1, len(outcomes))
        return r
    return g


def specified(v, cur, pa):
    return v in cur and cur[v].fits(pa(v)) and all(specified(u, cur, pa) for u in pa(v))


def examine(ctx, g, cur, pa, nodes=NODES):
    for v in nodes:
        c = g.get_cpds(v)
        if v not in cur:
            if nodes is not NODES:
                continue
            ctx.check("a removed distribution is gone", c is None)
            continue
        ps = pa(v)
        if not cur[v].fits(ps) or not all(u in cur for u in ps):
            continue
        if not specified(v, cur, pa):
            ctx.tag("deferred")
            continue
        ctx.check("a node with specified parents has a table", c is not None)
        if c is None:
            continue
        ctx.check("over the current parents", sorted(c.variables) == sorted([v, *ps]))
        cols = [dict(zip(ps, x)) for x in itertools.product(*[g.model.domain[u] for u in ps])]
        vals = [cur[v].f(pv) for pv in cols]
        vals = [d if isinstance(d, dict) else {d: 1} for d in vals]
        dom = cur[v].domain or sorted(set().union(*vals))
        ctx.check("recorded domain", list(g.model.domain[v]) == dom and list(c.state_names[v]) == dom)
        ctx.check("parents' outcomes", all(list(c.state_names[u]) == list(g.model.domain[u]) for u in ps))
        for pv, d in zip(cols, vals):
            for o in dom:
                x = value_of(c, {**pv, v: o})
                ctx.eq("table entry", x, d.get(o, 0))
                ctx.out(f"{v}{pv}{o}", x)
    if all(v in cur and specified(v, cur, pa) for v in nodes):
        st, r = ctx.call(g.check_model)
        ctx.check("the model is valid", st == "ok" and bool(r))
