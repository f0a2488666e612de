"""P19 optimal policies maximise expected utility."""
import importlib
import itertools
from fractions import Fraction

from symx.ncommon import D, N, Spec, U, func, rule_of
from symx.numeric import DRAWS, random_stand_ins

ENGINE = "numeric"
BOUNDS = {"quick": "the listed diagrams with one to three decisions (with and without sufficient recall, one or two utilities, two "
                   "or three outcomes, one or two agents): every utility table with entries between the extreme outcomes under fixed positive "
                   "chances, or every positive chance distribution under fixed utilities; every policy of the other "
                   "decisions for single imputations; compared with every pure policy (up to 64)",
          "thorough": "the same with the larger diagrams (up to 256 policies)"}
WITNESS = ["solve", "policy", "decision", "no recall", "others mixed", "other agent"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic.",
               "random.choice returns any element."]
OUTSIDE = "decision contexts of probability zero; larger diagrams; floating-point rounding"
TIMEOUT_MS = 120000
SAMPLES = {"quick": 2, "thorough": 3}


def d_blind(h, u):
    return [D("D", "", ["c", "a", "b"]), U("V", "D", [-1, 3], how=u)]


def d_observe(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), U("V", "D X", [0, 1], how=u)]


def d_noisy(h, u):  # observes a signal of what matters
    return [N("X", "", [0, 1], how=h), N("S", "X", ["lo", "hi"], how=h), D("D", "S", [1, 0]), U("V", "D X", [0, 1], how=u)]


def d_wide(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [2, 0, 1]), U("V", "D X", [0, 1], how=u)]


def d_recall(h, u):
    return [D("D", "", [0, 1]), D("E", "D", ["x", "y"]), U("V", "D E", [-2, 1], how=u)]


def d_steps(h, u):
    return [D("D", "", [1, 0]), N("S", "D", [0, 1], how=h), D("E", "D S", ["x", "y"]), U("V", "S E", [0, 3], how=u)]


def d_forget(h, u):  # the second decision does not see what the first one saw
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), D("E", "", [0, 1]), U("V", "D E X", [0, 1], how=u)]


def d_meet(h, u):  # two decisions that do not see each other
    return [D("D", "", [1, 0]), D("E", "", ["x", "y"]), U("V", "D E", [0, 1], how=u)]


def d_sum(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), U("V", "D", [0, 3], how=u), U("W", "X D", [-1, 1], how=u)]


def d_early(h, u):  # a utility the decision cannot influence, and one it can
    return [N("X", "", [0, 1], how=h), U("W", "X", [0, 7], how=u), D("D", "X", [1, 0]), U("V", "D X", [0, 1], how=u)]


def d_idle(h, u):  # nothing to gain
    return [N("X", "", [0, 1], how=h), D("D", "X", ["only", "other"]), N("Y", "D", [0, 1], how=h), U("V", "X", [0, 1], how=u)]


def d_split(h, u):  # utilities at both decisions
    return [D("D", "", [0, 1]), U("V", "D", [0, 1], how=u), D("E", "D", [0, 1]), U("W", "D E", [0, 2], how=u)]


def d_mediate(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [0, 1]), N("Y", "D X", [0, 1, 2], how=h), U("V", "Y", [0, 1], how=u)]


def d_aside(h, u):  # one utility right below the decision, another further down
    return [D("D", "", [1, 0]), U("V", "D", [0, 3], how=u), N("Y", "D", [0, 1], how=h), U("W", "Y", [0, 4], how=u)]


def d_three(h, u):
    return [D("D", "", [0, 1]), D("E", "D", [1, 0]), D("F", "E", ["x", "y"]), U("V", "D E", [0, 1], how=u), U("W", "E F", [-1, 1], how=u)]


def d_long(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0]), N("S", "D X", [0, 1], how=h), D("E", "D X S", ["x", "y"]), U("V", "S E X", [0, 3], how=u)]


def d_game(h, u):  # the other agent moves first and is observed
    return [N("X", "", [0, 1], how=h), N("E", "X", [0, 1], role="decision", agent="B", style="func", how="pos"),
            D("D", "E", [0, 1], agent="A"), U("V", "D E X", [0, 4], agent="A", how=u), U("W", "E", [0, 1], agent="B", how="num")]


def d_simult(h, u):
    return [N("X", "", [0, 1], how=h), N("E", "X", [0, 1], role="decision", agent="B", style="func", how="pos"), D("D", "X", ["s", "t", "r"], agent="A"),
            U("V", "D E", [-1, 4], agent="A", how=u), U("W", "E D", [0, 1], agent="B", how="num")]


def d_last(h, u):  # a later decision of the same agent already has a policy
    return [D("D", "", [0, 1]), N("E", "D", [0, 1], role="decision", style="func", how="pos"), U("V", "D E", [0, 1], how=u)]


def d_first(h, u):  # an earlier decision of the same agent already has a policy
    return [N("X", "", [0, 1], how=h), N("E", "X", [0, 1], role="decision", style="func", how="pos"), D("D", "E", [2, 0, 1]), U("V", "D X", [0, 1], how=u)]


CIDS = {"blind": d_blind, "observe": d_observe, "noisy": d_noisy, "wide": d_wide, "recall": d_recall, "steps": d_steps, "forget": d_forget,
        "sum": d_sum, "early": d_early, "idle": d_idle, "split": d_split, "mediate": d_mediate, "aside": d_aside, "three": d_three, "meet": d_meet}
GAMES = {"game": (d_game, "MACID"), "simultaneous": (d_simult, "MACID"), "last": (d_last, "CID"), "first": (d_first, "CID")}


def configs(tier):
    T = tier == "thorough"
    for s in list(CIDS) + (["long"] if T else []):
        for what in ("solve", "policy"):
            for h, u in (("num", "sym"), ("pos", "num"), ("pos", "sym")):
                if h == "pos" and s in ("blind", "recall", "split", "three", "meet"):
                    continue  # no chance nodes
                if what == "policy" and s in ("wide", "sum", "mediate", "three", "steps") and not T:
                    continue
                if s in ("three", "forget") and (not T or h == u):
                    continue
                yield {"name": f"{what} {s}, any {'utilities and chances' if h + u == 'possym' else 'utilities' if u == 'sym' else 'chances'}", "kind": what, "shape": s, "h": h, "u": u,
                       "weight": {"forget": 9, "steps": 6, "wide": 6, "three": 9, "long": 30}.get(s, 2)}
    for s in GAMES:
        for h, u in (("num", "num"), ("pos", "num")) + ((("num", "sym"),) if s != "simultaneous" else ()):
            yield {"name": f"decision {s}, any {'policy' if h == u else 'chances' if h == 'pos' else 'policy and utilities'}", "kind": "decision", "shape": s,
                   "h": h, "u": u, "weight": 4}
    for s in ("observe", "wide", "recall", "split", "aside"):
        yield {"name": f"decision {s}, any utilities", "kind": "decision", "shape": s, "h": "num", "u": "sym", "weight": 3}


def every(spec, d):
    n = spec.by[d]
    cs = list(n.table)
    for os in itertools.product(n.dom, repeat=len(cs)):
        yield {c: [Fraction(int(o == x)) for x in n.dom] for c, o in zip(cs, os)}


def body(ctx, cfg):
    s, kind = cfg["shape"], cfg["kind"]
    mk, cls = GAMES[s] if s in GAMES else (CIDS.get(s, d_long), "CID")
    spec = Spec(ctx, mk(cfg["h"], cfg["u"]))
    g = spec.build(cls)
    ds = [n.name for n in spec.nodes if n.role == "decision" and n.style == "domain"]
    m = importlib.import_module("pycid.core.cid")
    DRAWS.reset(ctx, 3)
    try:
        with random_stand_ins(m):
            if kind == "solve":
                st, r = ctx.call(g.solve)
                if st == "ok":
                    ctx.check("one rule per decision", sorted(r) == sorted(ds) and all(r[d].variable == d for d in ds))
                    g.add_cpds(*r.values())
            elif kind == "policy":
                st, r = ctx.call(g.impute_optimal_policy)
            else:
                # an earlier policy at the others, then one imputation
                for d in ds[1:]:
                    old = {c: ctx.real("policy %s %s" % (d, c), 0, 1, strict=True) for c in spec.by[d].table}
                    n = spec.by[d]
                    from pycid import StochasticFunctionCPD
                    n.table = {c: [1 - p, p] for c, p in old.items()}
                    g.add_cpds(StochasticFunctionCPD(d, func(n.parents, lambda *a, n=n: dict(zip(n.dom, n.table[a]))), g, domain=list(n.dom)))
                ds = ds[:1]
                st, r = ctx.call(g.impute_optimal_decision, ds[0])
    finally:
        DRAWS.reset(None, 0)
    ctx.check("solved", st == "ok", lambda: repr(ctx.last_exc))
    if st != "ok":
        return
    ctx.tag(kind)
    if s in ("forget", "meet"):
        ctx.tag("no recall")
    if kind == "decision" and s in ("game", "simultaneous"):
        ctx.tag("other agent")
    if kind == "decision":
        ctx.tag("others mixed")
    agent = spec.by[ds[0]].agent
    policy = {}
    for d in ds:
        n = spec.by[d]
        c = g.get_cpds(d)
        ctx.check("the declared domain", list(g.model.domain[d]) == n.dom and list(c.state_names[d]) == n.dom)
        ctx.check("depends on the parents only", sorted(c.variables) == sorted([d, *n.parents]))
        policy[d] = rule_of(c, spec, d)
        for row in policy[d].values():
            ctx.eq("a probability distribution", sum(row), 1)
            ctx.check("no negative probabilities", all(p >= 0 for p in row))
    eu = spec.eu(agent, policy=policy)
    st, v = ctx.call(g.expected_utility, {}, agent=agent)
    ctx.check("evaluated", st == "ok")
    ctx.eq("the value of the imputed policy", v, eu)
    ctx.out("value", eu)
    pairs = []
    for rs in itertools.product(*[list(every(spec, d)) for d in ds]):
        p = dict(zip(ds, rs))
        if p != policy:
            pairs.append((eu, spec.eu(agent, policy=p)))
    # optimal up to the tolerance with which equally good policies are recognised
    tol = Fraction(1, 10 ** 7) if s in ("forget", "meet") else 0
    if kind == "decision":
        for a, b in pairs:
            ctx.geq("no policy is better", a, b)
    else:
        ctx.geq_all("no policy is better", pairs, tol)
