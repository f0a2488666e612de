"""P20 pure rules are enumerated exactly once and all optimal pure policies are found."""
import itertools
from fractions import Fraction

from symx.ncommon import D, N, Spec, U, rule_of, same, snap
from symx.terms import And, Not, Or

ENGINE = "numeric"
BOUNDS = {"quick": "decisions with one to three outcomes and up to three parents (chance or decision) of two or three outcomes, every "
                   "combination, up to 256 rules; joint policies of two and three decisions; optimal policies on the listed diagrams "
                   "(one to three decisions, one or two agents, up to 16 policies), every utility table with entries "
                   "between the extreme outcomes or every chance distribution, tolerances 1e-9 and 0.2",
          "thorough": "the same with up to 729 rules and optimal policies among up to 27"}
WITNESS = ["rules", "no parents", "joint", "tie", "unique", "irrelevant decision", "given policy", "near tie"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic."]
OUTSIDE = "larger domains and more decisions; floating-point rounding of expected utilities (the reason for the tolerance)"
TIMEOUT_MS = 120000


def d_blind(h, u):
    return [D("D", "", ["c", "a", "b"]), U("V", "D", [-1, 3], how=u)]


def d_observe(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), U("V", "D X", [0, 1], how=u)]


def d_three(h, u):
    return [N("X", "", ["p", "q", "r"], how=h), D("D", "X", [0, 1]), U("V", "X D", [0, 2], how=u)]


def d_wide(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [2, 0, 1]), U("V", "D X", [0, 1], how=u)]


def d_pair(h, u):
    return [N("X", "", [0, 1], how=h), N("Y", "X", [1, 0], "table", how=h), D("D", "X Y", [0, 1]), U("V", "D X Y", [0, 1], how=u)]


def d_recall(h, u):
    return [D("D", "", [0, 1]), D("E", "D", ["x", "y"]), U("V", "D E", [-2, 1], how=u)]


def d_forget(h, u):  # the second decision does not see the first
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), D("E", "", [0, 1]), U("V", "D E", [0, 1], how=u), U("W", "X E", [0, 1], how=h)]


def d_sum(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), U("V", "D", [0, 3], how=u), U("W", "X D", [-1, 1], how=u)]


def d_agents(h, u):  # B's decision does not matter to A
    return [N("X", "", [0, 1], how=h), D("D", "X", [0, 1], agent="A"), D("E", "D", [0, 1], agent="B"),
            U("V", "D X", [0, 1], agent="A", how=u), U("W", "E D", [0, 1], agent="B", how=u)]


def d_policy(h, u):  # the other agent's decision matters and has a policy
    return [N("X", "", [0, 1], how=h), N("E", "X", [0, 1], role="decision", agent="B", style="func", how=h),
            D("D", "E", [0, 1], agent="A"), U("V", "D E X", [0, 4], agent="A", how=u), U("W", "E", [0, 1], agent="B", how=h)]


def d_later(h, u):  # an open later decision of the same agent that does matter is given a policy
    return [D("D", "", [0, 1]), N("E", "D", [0, 1], role="decision", style="func", how="pos"), U("V", "D E", [0, 1], how=u)]


SHAPES = {"blind": (d_blind, "CID"), "observe": (d_observe, "CID"), "three": (d_three, "CID"), "wide": (d_wide, "CID"), "pair": (d_pair, "MACIDBase"),
          "recall": (d_recall, "CID"), "forget": (d_forget, "CID"), "sum": (d_sum, "CID"), "agents": (d_agents, "MACID"),
          "policy": (d_policy, "MACID"), "later": (d_later, "CID")}


def configs(tier):
    T = tier == "thorough"
    for k in (1, 2, 3):
        for ps in ("", "P", "Q P") + (("R P Q",) if k == 2 else ()):
            yield {"name": f"rules for {k} outcomes, parents {ps or '-'}", "kind": "rules", "k": k, "ps": ps.split(),
                   "max": 729 if T else 256, "weight": 2 * k}
    for ds in (["D", "E"], ["E", "D"], ["D", "E", "F"], ["F"]):
        yield {"name": f"joint {' '.join(ds)}", "kind": "joint", "ds": ds}
    for s, ds in (("blind", "D"), ("observe", "D"), ("three", "D"), ("recall", "D E"), ("recall", "E D"), ("forget", "D E"), ("sum", "D"),
                  ("agents", "D"), ("policy", "D"), ("later", "D"), ("observe", "all"), ("agents", "E")) + ((("wide", "D"), ("pair", "D")) if T else ()):
        yield {"name": f"{s}: optimal {ds}, any utilities", "kind": "optimal", "shape": s, "h": "num", "u": "sym", "ds": ds.split(),
               "weight": {"three": 20, "recall": 15, "forget": 15, "policy": 8}.get(s, 5)}
    for s, ds in (("observe", "D"), ("agents", "D"), ("policy", "D"), ("wide", "D")) + ((("pair", "D"), ("forget", "D E")) if T else ()):
        yield {"name": f"{s}: optimal {ds}, any chances", "kind": "optimal", "shape": s, "h": "pos", "u": "num", "ds": ds.split(), "weight": 9}
    for s, ds in (("blind", "D"), ("observe", "D"), ("sum", "D")):
        yield {"name": f"{s}: optimal {ds} within 0.2", "kind": "optimal", "shape": s, "h": "num", "u": "sym", "ds": ds.split(),
               "tol": 0.2, "weight": 12}


def names(rule):
    return tuple(sorted((c, tuple(v)) for c, v in rule.items()))


def pure(ctx, c, spec, d):
    """the rule of a pure decision rule as (context, outcome) pairs"""
    n = spec.by[d]
    ctx.check("rule for the decision", c.variable == d)
    ctx.check("the declared domain", list(c.state_names[d]) == n.dom)
    ctx.check("depends on the parents", sorted(c.variables) == sorted([d, *n.parents]))
    r = rule_of(c, spec, d)
    ctx.check("deterministic", all(sorted(v) == [0] * (len(n.dom) - 1) + [1] for v in r.values()))
    return tuple((cx, n.dom[list(v).index(1)]) for cx, v in sorted(r.items(), key=repr))


def every(spec, d):
    n = spec.by[d]
    cs = sorted(n.table, key=repr)
    return [tuple(zip(cs, os)) for os in itertools.product(n.dom, repeat=len(cs))]


def as_policy(spec, d, rule):
    n = spec.by[d]
    return {cx: [Fraction(int(o == x)) for x in n.dom] for cx, o in rule}


def reversed_table(spec, p):
    from pgmpy.factors.discrete import TabularCPD
    dom = spec.by[p].dom[::-1]
    return TabularCPD(p, len(dom), [[Fraction(1, len(dom))]] * len(dom), state_names={p: list(dom)})


def body(ctx, cfg):
    if cfg["kind"] == "rules":
        k = cfg["k"]
        dp = {p: ctx.choice("outcomes of " + p, [[0, 1], ["b", "a", "c"]]) for p in cfg["ps"]}
        ctxs = 1
        for v in dp.values():
            ctxs *= len(v)
        ctx.assume(k ** ctxs <= cfg["max"])
        nodes = []
        for p in ("P", "Q", "R"):
            if p in dp:
                role = ctx.choice("role of " + p, ["chance", "decision"])
                nodes.append(N(p, "", dp[p], how="sym") if role == "chance" else D(p, "", dp[p]))
        nodes += [D("D", cfg["ps"], [["only"], [1, 0], [2, 0, 1]][k - 1]), U("V", "D", [0, 1])]
        spec = Spec(ctx, nodes)
        g = spec.build(ctx.choice("class", ["CID", "MACIDBase"]))
        before = snap(g)
        st, rules = ctx.call(lambda: list(g.pure_decision_rules("D")))
        ctx.check("enumerated", st == "ok", lambda: repr(ctx.last_exc))
        if st != "ok":
            return
        got = [pure(ctx, c, spec, "D") for c in rules]
        ctx.check("every rule once", len(set(got)) == len(got) == k ** ctxs and set(got) == set(every(spec, "D")))
        # still right when imputed
        ctx.check("model unchanged", same(before, snap(g)) == [])
        some = 1 % len(rules)  # not constant
        g.add_cpds(rules[some])
        ctx.check("the same rule when imputed", pure(ctx, g.get_cpds("D"), spec, "D") == got[some])
        for p in cfg["ps"]:  # the same outcomes in another order do not change the rule
            g.add_cpds(reversed_table(spec, p))
        st, h = ctx.call(g.copy)
        ctx.check("copied", st == "ok")
        for m in (g, h):
            ctx.check("the same rule after a parent's outcomes are listed in another order", pure(ctx, m.get_cpds("D"), spec, "D") == got[some])
        ctx.tag("rules" if cfg["ps"] else "no parents")
        ctx.out("rules", sorted(map(repr, got)))
        return
    if cfg["kind"] == "joint":
        spec = Spec(ctx, [N("X", "", [0, 1]), D("D", "X", [1, 0], agent="A"), D("E", "D", ["s", "t"], agent="B"), D("F", "", [0, 1, 2], agent="A"),
                          U("V", "D F", [0, 1], agent="A"), U("W", "E F", [0, 1], agent="B")])
        g = spec.build("MACID")
        for f in ("joint_pure_policies", "pure_policies"):
            st, r = ctx.call(lambda: list(getattr(g, f)(list(cfg["ds"]))))
            ctx.check("answered", st == "ok")
            ctx.check("one rule per decision, in order", all([c.variable for c in t] == cfg["ds"] for t in r))
            got = [tuple(pure(ctx, c, spec, c.variable) for c in t) for t in r]
            want = list(itertools.product(*[every(spec, d) for d in cfg["ds"]]))
            ctx.check("all combinations once", len(got) == len(set(got)) == len(want) and set(got) == set(want))
            ctx.out(f, len(got))
        ctx.tag("joint")
        return
    mk, cls = SHAPES[cfg["shape"]]
    spec = Spec(ctx, mk(cfg["h"], cfg["u"]))
    if cfg["shape"] == "agents":
        ctx.tag("irrelevant decision")
    if cfg["shape"] in ("policy", "later"):
        ctx.tag("given policy")
    g = spec.build(cls)
    before = snap(g)
    ds = cfg["ds"]
    tol = Fraction(repr(cfg.get("tol", 1e-9)))
    if ds == ["all"]:
        ds = [n.name for n in spec.nodes if n.role == "decision"]
        st, r = ctx.call(g.optimal_policies)
    elif len(ds) == 1 and "tol" not in cfg and ctx.choice("call", [0, 1]):
        st, r = ctx.call(g.optimal_pure_decision_rules, ds[0])
        if st == "ok":
            r = [(x,) for x in r]
    else:
        st, r = ctx.call(g.optimal_pure_policies, ds, **({"rel_tol": cfg["tol"]} if "tol" in cfg else {}))
    ctx.check("answered", st == "ok", lambda: repr(ctx.last_exc))
    if st != "ok":
        return
    ctx.check("model unchanged", same(before, snap(g)) == [])
    agent = spec.by[ds[0]].agent
    ctx.check("complete policies", all(sorted(c.variable for c in t) == sorted(ds) for t in r))
    got = [tuple(sorted((c.variable, pure(ctx, c, spec, c.variable)) for c in t)) for t in r]
    ctx.check("reported once", len(set(got)) == len(got) and got != [])
    allp = [tuple(sorted(zip(ds, rs))) for rs in itertools.product(*[every(spec, d) for d in ds])]
    ctx.check("among the pure policies", set(got) <= set(allp))
    eu = {p: spec.eu(agent, policy={d: as_policy(spec, d, rule) for d, rule in p}) for p in allp}
    ctx.out("optimal", sorted(map(repr, got)))
    bound = max(abs(sum(f(spec.by[u.name].dom) for u in spec.nodes if u.role == "utility" and u.agent == agent)) for f in (min, max))
    slack = 2 * tol * bound  # the extreme utility bounds every relative error
    if not ctx.symbolic:
        slack = float(slack) + 1e-7
    for p in allp:
        if p not in got:  # not a maximiser
            ctx.check("no best policy is left out", Or(*[eu[b] > eu[p] for b in got]) if ctx.symbolic
                      else max(eu[b] for b in got) > eu[p] + 1e-11)
    ctx.geq_all("reported policies are maximal", [(eu[a], eu[b]) for a in got for b in allp if a != b], slack)
    if "tol" in cfg:
        near(ctx, got, allp, eu, tol)
    if ctx.symbolic:
        ctx.tag("tie" if len(got) > 1 else "unique")


def near(ctx, got, allp, eu, tol):
    """where closeness is unambiguous, exactly the policies close to the best are reported"""
    from symx.numeric import _close, math_isclose
    if ctx.symbolic:
        close = {(a, b): math_isclose(eu[a], eu[b], rel_tol=tol) for a in allp for b in allp}
    else:
        gap = {(a, b): abs(eu[a] - eu[b]) - float(tol) * max(abs(eu[a]), abs(eu[b])) for a in allp for b in allp if a != b}
        if any(abs(x) < 1e-9 for x in gap.values()):
            return  # too close to call with rounding
        close = {(a, b): a == b or gap[a, b] < 0 for a in allp for b in allp}
    for best in allp:
        isbest = And(*[eu[best] >= eu[p] for p in allp])
        clear = And(*[Or(And(close[best, a], close[best, b], close[a, b]), And(Not(close[best, a]), Not(close[best, b])),
                         Not(close[a, b])) for a in allp for b in allp])
        for p in allp:
            ok = close[best, p] if p in got else Not(close[best, p])
            ctx.check("policies within the tolerance", Or(Not(isbest), Not(clear), ok))
    if len(got) > 1 and ctx.symbolic:
        ctx.tag("near tie")
