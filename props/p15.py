"""P15 expected values, expected utilities and causal effects are the corresponding expectations."""
import itertools

from symx.gcommon import module
from symx.ncommon import D, N, Spec, U

ENGINE = "numeric"
BOUNDS = ("diagrams on 3-6 nodes with the listed shapes and outcome values (negative, fractional, unsorted), one or two "
          "agents with up to three utilities each, every table entry and policy an arbitrary probability, every "
          "choice of context and intervention of up to one node each (two in some shapes, utilities included), lists of up to three "
          "variables in every order")
WITNESS = ["list", "eu", "effect negative", "effect not negative"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product, with the order of variables in its answer open.",
               "Exact real arithmetic."]
OUTSIDE = "lists of variables in unconnected parts (refused by design); contexts of probability zero"


def three(cfg):
    return [N("A", "", [0, 1]), N("B", "A", [-2, 5]), N("C", "A B", [0.5, 1, -3])]


def duo(cfg):  # two agents
    return [N("X", "", [0, 1]), D("D1", "X", [0, 1], agent=0), D("D2", "D1", [-1, 1], agent=1),
            U("U1", "D1 X", [0, 3], agent=0), U("U2", "D2 D1", [-2, 1], agent=1), U("U3", "D2", [4, 0.5], agent=0)]


def labels(cfg):
    return [N("X", "", ["lo", "hi"], "table"), D("D1", "X", [0, 1], agent="a"), U("Z", "D1 X", [-1, 10], agent="b"),
            U("Y", "X", [0, 2], agent="a"), U("W", "D1", [7, 3], agent="a"), U("V", "X D1", [0, 1], agent="a")]


def cid(cfg):
    return [N("A", "", [0, 1]), D("D", "A", [0, 1]), N("X", "A", [0, 1]), U("Y", "D X", [-1, 2]), U("Y2", "D", [0, 1])]


def cid2(cfg):
    return [N("S", "", [0, 1], "table"), N("A", "S", [0, 1, 2]), D("D", "A S", [0, 1], ), U("Y", "D A", [0, 1])]


def apart(cfg):  # utilities in unconnected parts
    return [N("X", "", [0, 1]), D("D1", "X", [0, 1]), U("U1", "D1", [-1, 3]), N("Y", "", [0, 1]), U("U2", "Y", [0, 2]), U("U3", "", [5, 0.5])]


DIAGRAMS = {"apart": (apart, "CID"), "three": (three, "CBN"), "duo": (duo, "MACID"), "labels": (labels, "MACIDBase"), "cid": (cid, "CID"),
            "cid2": (cid2, "CID")}


def configs(tier):
    for dg, lists in (("three", ["A", "B", "C", "A B", "B A", "C A", "C B A", "B A C"]),
                      ("duo", ["U1 U3", "U3 U2", "U2 D2 U1", "D1 U2"]),
                      ("cid", ["Y2 Y", "Y Y2", "Y D", "X Y"])):
        for vs in lists:
            yield {"name": f"{dg} expectation of {vs}", "d": dg, "kind": "list", "vs": vs.split(), "weight": 2}
    for dg in ("duo", "labels", "cid", "apart"):
        for a in (0, 1) if dg == "duo" else ("a", "b") if dg == "labels" else (0,):
            yield {"name": f"{dg} utility of {a}", "d": dg, "kind": "eu", "agent": a, "weight": 3}
    yield {"name": "utility without utilities", "d": "duo", "kind": "none"}
    for dg, a, xs in (("three", "A", "BC"), ("cid", "A", ["Y", "X", "D"]), ("cid2", "A", ["Y", "D"]),
                      ("cid2", "S", ["Y", "D", "A"])):
        for x in xs:
            yield {"name": f"{dg} total effect of {a} on {x}", "d": dg, "kind": "te", "a": a, "x": x}
    for dg, a, y in (("cid", "A", "Y"), ("cid2", "A", "Y"), ("cid", "A", "Y2"), ("cid2", "S", "Y")):
        yield {"name": f"{dg} introduced effect of {a} on {y}", "d": dg, "kind": "ite", "a": a, "y": y, "weight": 2}
    if tier == "thorough":
        for dg, vs in (("duo", ["U1", "U2", "U3"]), ("cid", ["Y", "X", "Y2"]), ("labels", ["V", "W", "Y"])):
            for p in itertools.permutations(vs):
                yield {"name": f"{dg} expectation of {p}, larger contexts", "d": dg, "kind": "list", "vs": list(p),
                       "big": True, "weight": 9}


def setting(ctx, spec, skip, big):
    """A context and an intervention."""
    obs, do = {}, {}
    for n in spec.nodes:
        if n.name in skip:
            continue
        use = ctx.choice(f"use {n.name}", ["-"] + ["see"] * (len(obs) < 1 + big) + ["do"] * (len(do) < 1 + big))
        if use != "-":
            (obs if use == "see" else do)[n.name] = ctx.choice(f"value {n.name}", n.dom)
    return obs, do


def body(ctx, cfg):
    mk, kind = DIAGRAMS[cfg["d"]]
    nodes = mk(cfg)
    for n in nodes:
        if n.role == "decision":  # a policy is in place
            n.style, n.how = "func", "sym"
    spec = Spec(ctx, nodes)
    g = spec.build(kind)
    val = lambda v: (lambda a: spec_num(a[v]))
    k = cfg["kind"]
    if k == "none":
        g.make_chance("U2")
        st, r = ctx.call(g.expected_utility, {}, agent=1)
        ctx.check("an agent without utilities gets nothing", st == "ok")
        ctx.eq("expected utility", r, 0)
        return
    if k in ("list", "eu"):
        skip = cfg["vs"] if k == "list" else []
        obs, do = setting(ctx, spec, skip, cfg.get("big", False))
        if k == "list" and not linked(spec, cfg["vs"], do):
            return
        z = spec.weight(obs, do)
        ctx.assume(z > 0 if ctx.symbolic else z > 1e-9)
        if k == "list":
            st, r = ctx.call(g.expected_value, cfg["vs"], obs, do)
            ctx.check("answered", st == "ok")
            if st != "ok":
                return
            ctx.tag("list")
            ctx.out("value", list(r))
            ctx.check("one value per variable", len(r) == len(cfg["vs"]))
            for v, x in zip(cfg["vs"], r):
                ctx.eq("expected value", x, spec.moment(val(v), obs, do) / z)
        else:
            st, r = ctx.call(g.expected_utility, obs, do, agent=cfg["agent"])
            ctx.check("answered", st == "ok")
            if st != "ok":
                return
            ctx.tag("eu")
            ctx.out("value", r)
            us = [n.name for n in nodes if n.role == "utility" and n.agent == cfg["agent"]]
            ctx.eq("expected utility", r, spec.moment(lambda a: sum(spec_num(a[u]) for u in us), obs, do) / z)
        return
    eff = module("pycid.analyze.effects")
    dom = spec.by[cfg["a"]].dom
    a0, a1 = ctx.choice("levels", [(0, 1), (1, 0)] + [(2, 1), (0, 2)] * (len(dom) > 2))
    spec_te = lambda x: spec.moment(val(x), {}, {cfg["a"]: a1}) - spec.moment(val(x), {}, {cfg["a"]: a0})
    if k == "te":
        args = [] if (a0, a1) == (0, 1) else [a0, a1]
        st, r = ctx.call(eff.total_effect, g, cfg["a"], cfg["x"], *args)
        ctx.check("answered", st == "ok")
        ctx.out("effect", r)
        ctx.eq("total effect", r, spec_te(cfg["x"]))
        return
    adapt = ctx.bool("adapt")
    adapt = bool(adapt)
    st, r = ctx.call(eff.introduced_total_effect, g, cfg["a"], "D", cfg["y"], a0, a1, adapt)
    ctx.check("answered", st == "ok")
    if st != "ok":
        return
    ctx.out("introduced", r)
    d, y = spec_te("D"), spec_te(cfg["y"])
    if adapt and y < 0:
        ctx.tag("effect negative")
        d, y = -d, -y
    else:
        ctx.tag("effect not negative")
    ctx.eq("introduced total effect", r, d - y)


def spec_num(x):
    from fractions import Fraction
    return Fraction(repr(x)) if isinstance(x, float) else x


def linked(spec, q, do=()):
    seen, todo = {q[0]}, [q[0]]
    E = [(u, v) for u, v in spec.edges() if v not in do]
    while todo:
        x = todo.pop()
        for u, v in E:
            for a, b in ((u, v), (v, u)):
                if a == x and b not in seen:
                    seen.add(b)
                    todo.append(b)
    return set(q) <= seen
