"""P24 policy imputation helpers impute what they say."""
import itertools
from fractions import Fraction

from symx.ncommon import D, N, Spec, U, cpd_snap, rule_of, same, snap, value_of
from symx.terms import And, Not, Or

ENGINE = "numeric"
BOUNDS = ("diagrams on 3-6 nodes with the listed shapes (one to three decisions of one or two agents, two or three "
          "outcomes, domains in any order), every table entry an arbitrary positive probability (arbitrary for the "
          "structural-model test), every decision and target, policies imputed before")
WITNESS = ["random", "mixed profile", "conditional expectation", "removed", "structural", "not structural", "target observed"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic."]
OUTSIDE = "contexts of probability zero; targets that depend on the decision itself; larger diagrams"


def d_one(how):
    return [N("X", "", [0, 1], how=how), D("D", "X", [1, 0]), N("Y", "X", [-1, 2], how=how), U("V", "D Y", [0, 1], how="num")]


def d_two(how):
    return [N("X", "", [0, 1, 2], "table", how), N("Y", "X", [3, -1], how=how), N("Z", "Y", [0, 1], how=how),
            D("D", "X Z", ["a", "b", "c"]), D("E", "D Y", [5, 2]), U("V", "D E", [0, 1], how="num")]


def d_agents(how):
    return [N("X", "", [0, 1], how=how), D("D", "", [1, 0], agent="p"), D("E", "X D", [0, 2, 1], agent="q"),
            N("Y", "X", [0.5, 7], how=how), U("V", "D E", [0, 1], agent="p", how="num"), U("W", "E", [0, 3], agent="q", how="num")]


def d_many(how):
    return [N("S", "", [0, 1], how=how), D("D1", "S", [0, 1]), D("D2", "D1", [4, 3]), D("D3", "D2 S", ["x", "y"]),
            U("V", "D3 S", [0, 1], how="num")]


def d_hidden(how):
    return [N("H", "", [0, 1], how=how), N("A", "H", ["lo", "hi"], how=how), N("B", "H", [0, 1], "table", how),
            N("Y", "H", [-5, 0, 4], how="num"), D("D", "A B", [0, 1]), U("V", "D H", [0, 1], how="num")]


SHAPES = {"one": (d_one, "CID"), "two": (d_two, "CID"), "agents": (d_agents, "MACID"), "many": (d_many, "MACIDBase"),
          "hidden": (d_hidden, "CID")}
TARGETS = {"one": [("D", "Y"), ("D", "X")], "two": [("D", "Y"), ("D", "Z"), ("D", "X"), ("E", "Y"), ("E", "X")],
           "agents": [("E", "Y"), ("E", "X"), ("D", "X"), ("D", "Y")], "many": [("D1", "S"), ("D3", "S")],
           "hidden": [("D", "Y"), ("D", "H"), ("D", "B")]}
SCM = {"chain": "A; B A; C B", "collider": "A; B; C A B", "triangle": "A; B A; C B A", "exogenous": "A; B; C"}


def configs(tier):
    for s, (mk, _) in SHAPES.items():
        ds = [n.name for n in mk("num") if n.role == "decision"]
        for d in ds:
            yield {"name": f"{s}: random {d}", "kind": "random", "shape": s, "d": d}
        yield {"name": f"{s}: all random", "kind": "profile", "shape": s}
        yield {"name": f"{s}: removed", "kind": "remove", "shape": s}
        for d, y in TARGETS[s]:
            big = s == "two" and d == "D"
            yield {"name": f"{s}: {d} expects {y}", "kind": "expect", "shape": s, "d": d, "y": y, "weight": 3 + 30 * big,
                   "fixed": ["X"] if big and tier == "quick" else []}
    for s in SCM:
        for st in ("func", "table"):
            yield {"name": f"structural {s} {st}", "kind": "scm", "shape": s, "style": st, "weight": 5}
            if tier == "thorough" and s != "exogenous":
                yield {"name": f"structural {s} {st}, three outcomes", "kind": "scm", "shape": s, "style": st, "k": 3,
                       "weight": 50}


def uniform(ctx, g, spec, d, label):
    n = spec.by[d]
    c = g.get_cpds(d)
    ctx.check("declared domain kept", list(g.model.domain[d]) == n.dom and list(c.state_names[d]) == n.dom)
    rule = rule_of(c, spec, d)
    for cx, ps in rule.items():
        for p in ps:
            ctx.eq(label, p, Fraction(1, len(n.dom)))
    ctx.out(label, [v for v in rule.values()])
    from pycid.core.cpd import DecisionDomain
    ctx.check("a policy is in place", not isinstance(c, DecisionDomain))


def body(ctx, cfg):
    from pycid.core.cpd import DecisionDomain
    kind = cfg["kind"]
    if kind == "scm":
        nodes = [N(p.split()[0], p.split()[1:], list(range(cfg.get("k", 2))), cfg["style"]) for p in SCM[cfg["shape"]].split(";")]
        spec = Spec(ctx, nodes)
        g = spec.build("CBN")
        st, r = ctx.call(g.is_structural_causal_model)
        ctx.check("answered", st == "ok")
        r = bool(r)
        ctx.out("structural", r)
        ps = [p for n in nodes if n.parents for row in n.table.values() for p in row]
        ctx.tag("structural" if r else "not structural")
        if ctx.symbolic:
            if r:
                t = Fraction(1, 10000)
                ctx.check("structural models are deterministic", And(*[Or(p <= t, p >= 1 - t) for p in ps]))
            else:
                ctx.check("deterministic models are structural", Not(And(*[Or(p <= 0, p >= 1) for p in ps])))
        else:
            ctx.check("structural models are deterministic", not r or all(p <= 1e-3 or p >= 1 - 1e-3 for p in ps))
            ctx.check("deterministic models are structural", r or not all(p <= 1e-9 or p >= 1 - 1e-9 for p in ps))
        return
    mk, cls = SHAPES[cfg["shape"]]
    nodes = mk("pos" if kind == "expect" else "sym")
    for n in nodes:
        if n.name in cfg.get("fixed", ()):
            n.how = "num"
    spec = Spec(ctx, nodes)
    g = spec.build(cls)
    ds = [n.name for n in spec.nodes if n.role == "decision"]
    if kind in ("random", "profile", "remove"):
        if ctx.choice("before", [False, True]):  # some policy is already in place
            for d in ds:
                n = spec.by[d]
                old = {c: ctx.real("old %s %s" % (d, c), 0, 1) for c in n.table}
                f = lambda *a, old=old, n=n: {**{o: 0 for o in n.dom}, n.dom[0]: old[a], n.dom[-1]: 1 - old[a]}
                from pycid import StochasticFunctionCPD
                from symx.ncommon import func
                g.add_cpds(StochasticFunctionCPD(d, func(n.parents, f), g, domain=list(n.dom)))
        before = snap(g)
    if kind == "random":
        st, _ = ctx.call(g.impute_random_decision, cfg["d"])
        ctx.check("done", st == "ok")
        uniform(ctx, g, spec, cfg["d"], "uniform")
        ctx.tag("random")
        after = snap(g)
        others = {k: v for k, v in before["cpds"].items() if k != cfg["d"]}
        ctx.check("nothing else changes", others == {k: v for k, v in after["cpds"].items() if k != cfg["d"]} and
                  before["edges"] == after["edges"])
    elif kind == "profile":
        f = g.impute_random_policy if cls == "CID" and ctx.choice("which", [0, 1]) else g.impute_fully_mixed_policy_profile
        st, _ = ctx.call(f)
        ctx.check("done", st == "ok")
        for d in ds:
            uniform(ctx, g, spec, d, "uniform")
        ctx.tag("mixed profile")
    elif kind == "remove":
        how = ctx.choice("policies", ["as is", "random", "mixed"])
        if how == "random":
            g.impute_fully_mixed_policy_profile()
        elif how == "mixed":
            g.impute_random_decision(ds[0])
        st, _ = ctx.call(g.remove_all_decision_rules)
        ctx.check("done", st == "ok")
        ctx.tag("removed")
        for d in ds:
            n = spec.by[d]
            c = g.get_cpds(d)
            ctx.check("bare domain", isinstance(c, DecisionDomain) and list(g.model.domain[d]) == n.dom)
            st, _ = ctx.call(g.query, [d], {})
            ctx.check("the policy is open again", st == "exc")
            ctx.out(d, list(g.model.domain[d]))
    else:
        d, y = cfg["d"], cfg["y"]
        for o in ds:
            if o != d:
                g.impute_random_decision(o)
        st, _ = ctx.call(g.impute_conditional_expectation_decision, d, y)
        ctx.check("done", st == "ok", lambda: repr(ctx.last_exc))
        if st != "ok":
            return
        ctx.tag("conditional expectation")
        if y in spec.by[d].parents:
            ctx.tag("target observed")
        c = g.get_cpds(d)
        n = spec.by[d]
        ctx.check("depends on the decision's parents", sorted(c.variables) == sorted([d, *n.parents]))
        got = []
        for cx in n.table:
            a = dict(zip(n.parents, cx))
            z = spec.weight(a)
            m = 0
            for o in c.state_names[d]:
                p = value_of(c, {**a, d: o})
                ctx.check("deterministic", Or(p == 0, p == 1) if ctx.symbolic else p in (0, 1))
                m = m + p * frac(o)
            got.append(m)
            ctx.eq("expectation of the target", m, spec.moment(lambda s: frac(s[y]), a) / z)
        ctx.out("expectations", got)
        return


def frac(o):
    return Fraction(repr(o)) if isinstance(o, float) else o
