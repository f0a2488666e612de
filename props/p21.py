"""P21 quantitative value of information and control equal their definitions."""
import importlib
import itertools
from fractions import Fraction

from symx.ncommon import D, N, Spec, U, same, snap
from symx.numeric import DRAWS, random_stand_ins
from symx.terms import And, Or

ENGINE = "numeric"
BOUNDS = {"quick": "the listed diagrams on 3-6 nodes with one or two decisions; every node as the subject; every utility table with entries "
                   "between the extreme outcomes under fixed positive chances, every positive chance distribution under fixed utilities, or both; "
                   "compared with the best of all pure policies (up to 64)",
          "thorough": "the same with more diagrams"}
WITNESS = ["information", "control", "no information", "no control", "refused", "worth something", "already observed", "control of a utility",
           "control without recall", "policy given"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic.",
               "random.choice returns any element."]
OUTSIDE = "contexts of probability zero; larger diagrams; floating-point rounding"
TIMEOUT_MS = 60000


def s_open(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "", [1, 0]), U("V", "D X", [0, 1], how=u)]


def s_signal(h, u):
    return [N("X", "", [0, 1], how=h), N("S", "X", ["lo", "hi"], how=h), D("D", "", [1, 0]), U("V", "D X", [0, 1], how=u)]


def s_seen(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), U("V", "D X", [-1, 1], how=u)]


def s_two(h, u):  # one signal is seen already
    return [N("X", "", [0, 1], how=h), N("S", "X", [0, 1], how=h), D("D", "S", [1, 0]), U("V", "D X", [0, 1], how=u)]


def s_useless(h, u):
    return [N("X", "", [0, 1], how=h), N("Z", "X", [0, 1], how=h), D("D", "", [1, 0, 2]), U("W", "Z", [0, 1], how="num"), U("V", "D", [0, 1], how=u)]


def s_early(h, u):
    return [N("X", "", [0, 1], how=h), U("W", "X", [0, 2], how="num"), N("Y", "X", [0, 1], how=h), D("D", "", [1, 0]), U("V", "D Y", [0, 1], how=u)]


def s_mediated(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "", [0, 1]), N("Y", "D X", [0, 1], how=h), U("V", "Y", [0, 5], how=u), N("Z", "Y", [0, 1], how=h)]


def s_sum(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "", [1, 0]), U("V", "D X", [0, 1], how=u), U("W", "D", [0, 2], how="num")]


def s_decisions(h, u):  # the second decision sees the first
    return [D("D", "", [0, 1]), N("X", "", [0, 1], how=h), D("E", "D", [1, 0]), U("V", "D E X", [0, 1], how=u)]


def s_parent(h, u):  # a controlled node with parents
    return [N("X", "", [0, 1], how=h), N("Y", "X", [0, 1], how=h), D("D", "Y", [1, 0]), U("V", "D X", [0, 1], how=u)]


SHAPES = {"open": s_open, "signal": s_signal, "seen": s_seen, "two": s_two, "useless": s_useless, "early": s_early, "mediated": s_mediated, "sum": s_sum,
          "decisions": s_decisions, "parent": s_parent}


SLOW = {("decisions", "X", "D"), ("decisions", "X"), ("early", "Y"), ("two", "X"), ("parent", "X"), ("parent", "Y"), ("two", "S")}


def configs(tier):
    T = tier == "thorough"
    for s, mk in SHAPES.items():
        ns = mk("num", "num")
        ds = [n.name for n in ns if n.role == "decision"]
        for h, u in (("num", "sym"), ("pos", "num"), ("pos", "sym")):
            what = "utilities and chances" if h + u == "possym" else "utilities" if u == "sym" else "chances"
            for n in ns:
                for d in ds:
                    if u == "sym" and (s, n.name, d) in SLOW:
                        continue
                    if (h + u == "possym" and not T) and (s not in ("open", "seen", "useless")):
                        continue
                    c = {"name": f"{s}: information {n.name} at {d}, any {what}", "kind": "voi", "shape": s, "node": n.name, "d": d, "h": h, "u": u,
                         "weight": 2 + 3 * (u == "sym") + 4 * (s == "decisions")}
                    yield c
                    if h + u == "posnum" and (T or s in ("open", "signal", "seen", "decisions")):
                        yield {**c, "name": c["name"] + ", with a policy", "policy": True}
                if (h + u == "possym" and not T) and (s not in ("open", "seen", "useless")):
                    continue
                if u == "sym" and (s, n.name) in SLOW and not (T and s != "decisions"):
                    continue
                c = {"name": f"{s}: control {n.name}, any {what}", "kind": "voc", "shape": s, "node": n.name, "h": h, "u": u,
                     "weight": 2 + 3 * (u == "sym") + 4 * (s == "decisions")}
                yield c
                if h + u == "posnum" and (T or s in ("open", "seen")):
                    yield {**c, "name": c["name"] + ", with a policy", "policy": True}


def best(ctx, spec, label, only=None):
    """the largest expected utility over pure policies"""
    ds = [n for n in spec.nodes if n.role == "decision"]
    vals = []
    for rs in itertools.product(*[itertools.product(n.dom, repeat=len(n.table)) for n in ds]):
        pol = {n.name: {c: [Fraction(int(o == x)) for x in n.dom] for c, o in zip(n.table, r)} for n, r in zip(ds, rs)}
        vals.append(spec.eu(0, policy=pol, only=only))
    if not ctx.symbolic or not any(hasattr(v, "n") for v in vals):
        return max(vals)
    uniq = []
    for v in vals:
        if not any((v - w) == 0 if not hasattr(v - w, "n") else False for w in uniq):
            uniq.append(v)
    m = ctx.real("best " + label)
    ctx.assume(And(*[m >= v for v in uniq]))
    ctx.assume(Or(*[m <= v for v in uniq]))
    return m


def relinked(ctx, spec, node, d, add):
    """the diagram with or without the information link"""
    ns = []
    for n in spec.nodes:
        k = N(n.name, n.parents, n.dom, n.style, {c: v for c, v in n.table.items()}, n.role, n.agent)
        if n.name == d:
            k.parents = [p for p in n.parents if p != node] + ([node] if add else [])
            k.how = "open"
        ns.append(k)
    # parents first
    order, rest = [], ns
    while rest:
        for n in rest:
            if all(p in [o.name for o in order] for p in n.parents):
                order.append(n)
                rest = [r for r in rest if r is not n]
                break
    return Spec(ctx, order)


def controlled(ctx, spec, node):
    ns = []
    for n in spec.nodes:
        k = N(n.name, n.parents, n.dom, n.style, {c: v for c, v in n.table.items()}, n.role, n.agent)
        if n.name == node:
            k.role, k.how = "decision", "open"
        ns.append(k)
        if n.name == node and n.role == "utility":  # what the agent values is still valued
            ns.append(N(node + "*", [node], n.dom, "value", lambda o: o, "utility", n.agent))
    return Spec(ctx, ns)


def body(ctx, cfg):
    import pycid
    spec = Spec(ctx, SHAPES[cfg["shape"]](cfg["h"], cfg["u"]))
    g = spec.build("CID")
    node = cfg["node"]
    ds = [n.name for n in spec.nodes if n.role == "decision"]
    if cfg.get("policy"):  # one the agent follows already, good or bad
        for d in ds:
            if ctx.choice(f"rule for {d}", ["random", "constant"]) == "random":
                g.impute_random_decision(d)
            else:
                from pycid import StochasticFunctionCPD
                g.add_cpds(StochasticFunctionCPD(d, lambda d=d, **pv: spec.by[d].dom[-1], g, domain=list(spec.by[d].dom)))
        ctx.tag("policy given")
    before = snap(g)
    DRAWS.reset(ctx, 3)
    try:
        with random_stand_ins(importlib.import_module("pycid.core.cid")):
            if cfg["kind"] == "voi":
                st, v = ctx.call(pycid.quantitative_voi, g, cfg["d"], node)
            else:
                st, v = ctx.call(pycid.quantitative_voc, g, node)
    finally:
        DRAWS.reset(None, 0)
    ctx.check("the caller's diagram is unchanged", same(before, snap(g)) == [], lambda: same(before, snap(g)))
    if cfg["kind"] == "voi":
        down = descendants(spec, cfg["d"])
        if node == cfg["d"] or node in down:
            ctx.check("refused", st == "exc" and v == "ValueError")
            ctx.tag("refused")
            return
        ctx.check("answered", st == "ok", lambda: repr(ctx.last_exc))
        if st != "ok":
            return
        a, b = relinked(ctx, spec, node, cfg["d"], True), relinked(ctx, spec, node, cfg["d"], False)
        st2, adm = ctx.call(pycid.admits_voi, g, cfg["d"], node)
        ctx.tag("already observed" if node in spec.by[cfg["d"]].parents else "information")
        none = "no information"
    else:
        ctx.check("answered", st == "ok", lambda: repr(ctx.last_exc))
        if st != "ok":
            return
        a, b = controlled(ctx, spec, node), spec
        st2, adm = ctx.call(pycid.admits_voc, g, node)
        ctx.tag("control of a utility" if spec.by[node].role == "utility" else "control")
        none = "no control"
        copy = g.copy()
        copy.make_decision(node)
        if not copy.sufficient_recall():
            ctx.tag("control without recall")
    m1, m2 = best(ctx, a, "with"), best(ctx, b, "without")
    ctx.out("value", v)
    slack = Fraction(1, 10 ** 6)  # equally good policies are recognised up to a tolerance
    ctx.geq("at least the definition", v, m1 - m2, slack)
    ctx.geq("at most the definition", m1 - m2, v, slack)
    ctx.geq("never negative", v, 0, slack)
    ctx.check("the graphical criterion answers", st2 == "ok")
    if st2 == "ok" and not adm:
        ctx.tag(none)
        ctx.geq("nothing without the graphical criterion", slack, v)
    elif ctx.symbolic and not hasattr(v, "n") and v > 0 or hasattr(v, "n"):
        ctx.tag("worth something")


def descendants(spec, d):
    out, todo = set(), [d]
    while todo:
        x = todo.pop()
        for u, w in spec.edges():
            if u == x and w not in out:
                out.add(w)
                todo.append(w)
    return out
