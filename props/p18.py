"""P18 analyses and copies never change the caller's model."""
import copy as cp
import importlib
import itertools
import os
import tempfile

from symx import gambit_stub
from symx.ncommon import D, N, Spec, U, func, same, snap, value_of
from symx.numeric import DRAWS, random_stand_ins

ENGINE = "numeric"
BOUNDS = {"quick": "the listed diagrams on 4-6 nodes (one or two agents, up to three decisions) with every chance or utility parameter symbolic; "
                   "policies open, random, optimal, or mixed; every analysis of the package on every node (pair); copies of "
                   "networks and diagrams: every one or two edits (of the second, every third) of the copy followed by one edit (every second one) of the original "
                   "(and the reverse), out of replacing distributions (tables, functions, dictionaries, wider domains), adding and "
                   "removing links and nodes, changing roles, intervening and imputing",
          "thorough": "the same with all pairs of edits, and two later edits"}
WITNESS = ["analysed", "open", "random", "optimal", "refused without change", "copy edited", "original edited", "answers agree", "result changed"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic.",
               "The game solver returns the uniform profile (its answer does not matter here)."]
OUTSIDE = "larger diagrams; drawing; sampling"


def d_cid(h, u):
    return [N("X", "", [0, 1], how=h), N("S", "X", [1, 0], "table", h), D("D", "S", [1, 0]), N("Y", "D X", [0, 1], how=h),
            U("V", "Y", [0, 3], how=u), U("W", "D S", [-1, 1], how=u)]


def d_two(h, u):
    return [N("X", "", [0, 1], "dict", h), D("D", "X", [1, 0]), D("E", "D X", [0, 1]), U("V", "D E X", [0, 1], how=u), N("I", "", [0, 1], how=h)]


def d_game(h, u):
    return [N("X", "", [0, 1], how=h), D("D", "X", [0, 1], agent="A"), D("E", "D", [1, 0], agent="B"), U("V", "D E", [0, 1], agent="A", how=u),
            U("W", "E X", [-1, 2], agent="B", how=u)]


def d_simult(h, u):
    return [N("X", "", [0, 1], "table", h), D("E", "", ["l", "r"], agent=1), D("D", "X", [0, 1], agent=0), U("V", "D E", [0, 1], agent=0, how=u),
            U("W", "E D", [-1, 2], agent=1, how=u), D("F", "D", [0, 1], agent=0), U("Z", "F X", [0, 1], agent=0, how=u)]


SHAPES = {"cid": (d_cid, "CID"), "two": (d_two, "CID"), "game": (d_game, "MACID"), "simultaneous": (d_simult, "MACID"),
          "base": (d_game, "MACIDBase")}
STATES = ("open", "random", "optimal", "partly")


def configs(tier):
    for i, c in enumerate(all_configs(tier)):
        if tier == "quick" and c["kind"] in ("copy", "solve") and i % 4 or c["kind"] in ("query", "graph") and (c["state"] != "random" or c["shape"] not in ("two", "game")):
            c["samples"] = 0
        yield c


def all_configs(tier):
    T = tier == "thorough"
    for s, (mk, cls) in SHAPES.items():
        for state in STATES:
            yield {"name": f"graphical analyses of {s}, policies {state}", "kind": "graph", "shape": s, "state": state, "h": "sym", "u": "sym", "weight": 20}
            yield {"name": f"queries of {s}, policies {state}", "kind": "query", "shape": s, "state": state, "h": "pos", "u": "num", "weight": 20}
            for k in range({"cid": 10, "two": 10, "game": 4, "simultaneous": 5}.get(s, 0)):
                yield {"name": f"solution {k} of {s}, policies {state}", "kind": "solve", "shape": s, "state": state, "h": "num", "u": "sym" if k < 3 and s != "two" else "num",
                       "pick": k, "weight": 2}
            if cls == "MACID":
                yield {"name": f"games of {s}, policies {state}", "kind": "game", "shape": s, "state": state, "h": "pos", "u": "num", "weight": 6}
    for m in COPIES:
        for side in ("copy", "original"):
            for first in range(len(EDITS)):
                yield {"name": f"{m}: {side} edited first, {EDITS[first][0]}", "kind": "copy", "model": m, "side": side, "first": first,
                       "n1": 2, "n2": 1 + T, "weight": 5, "every": 1 if T else 3}


# ---- analyses ---------------------------------------------------------------------------------------------
def graph_calls(p, g):
    ns, ds = list(g.nodes), list(g.decisions)
    pr = importlib.import_module("pycid.analyze.reasoning_patterns")
    gp = importlib.import_module("pycid.core.get_paths")
    for d in ds + ns[:1]:
        for f in ("admits_ici_list", "admits_ri_list", "admits_voi_list", "admits_indir_voc_list", "requisite_list"):
            yield f, getattr(p, f), (g, d)
        for n in ns:
            for f in ("admits_ici", "admits_ri", "admits_voi", "admits_indir_voc", "requisite"):
                yield f, getattr(p, f), (g, d, n)
        yield "is_r_reachable", g.is_r_reachable, (d, ns)
        yield "is_s_reachable", g.is_s_reachable, (ds, d)
        yield "direct effect", p.direct_effect, (g, d)
        yield "manipulation", p.manipulation, (g, d, set(ds))
        yield "signaling", p.signaling, (g, d, set(ds))
        yield "revealing", p.revealing_or_denying, (g, d, set(ds))
    for n in ns:
        for f in ("admits_voc", "admits_dir_voc"):
            yield f, getattr(p, f), (g, n)
        for m in ns:
            for f in ("find_active_path", "find_all_dir_paths", "find_all_undir_paths", "directed_decision_free_path", "is_active_backdoor_trail",
                      "is_active_indirect_frontdoor_trail"):
                if n != m:
                    h = getattr(gp, f)
                    yield f, (lambda h=h, *a: (lambda r: list(r) if hasattr(r, "__next__") else r)(h(*a))), (h, g, n, m) + \
                        (({ns[0]},) if f == "find_active_path" else ())
    for f in ("admits_voc_list", "admits_dir_voc_list", "requisite_graph", "get_reasoning_patterns", "MechanismGraph", "RelevanceGraph",
              "CondensedRelevanceGraph"):
        yield f, getattr(p, f), (g,)
    yield "orders of sccs", lambda: p.CondensedRelevanceGraph(g).get_scc_topological_ordering(), ()
    yield "relevance", lambda: (p.RelevanceGraph(g).is_acyclic(), p.RelevanceGraph(g).get_sccs()), ()
    for a in list(g.agents) + [None, "nobody"]:
        yield "sufficient_recall", g.sufficient_recall, (a,)
    yield "get_valid_order", g.get_valid_order, ()
    yield "get_valid_order", g.get_valid_order, (ns,)
    yield "active_trail_nodes", g.active_trail_nodes, (ns[:2], ns[2:3])
    yield "is_structural_causal_model", g.is_structural_causal_model, ()
    yield "check_model", g.check_model, ()
    yield "copy", g.copy, ()
    yield "copy_without_cpds", g.copy_without_cpds, ()
    for n in ds[:2]:
        yield "pure rules", lambda n=n: list(g.pure_decision_rules(n)), ()
    if hasattr(g, "joint_pure_policies"):
        yield "joint_pure_policies", lambda: list(itertools.islice(g.joint_pure_policies(ds[:2]), 5)), ()
        yield "policy_profile_assignment", g.policy_profile_assignment, ([g.get_cpds(d) for d in ds[:1]],)
        yield "decs_in_each_maid_subgame", g.decs_in_each_maid_subgame, ()


def query_calls(p, g, spec):
    ns = [n.name for n in spec.nodes]
    for q in ns:
        yield "query", g.query, ([q], {})
        yield "expected_value", g.expected_value, ([q], {})
        for o in ns:
            if o != q:
                yield "query with context", g.query, ([q], {o: spec.by[o].dom[-1]})
                yield "query with intervention", g.query, ([q], {}, {o: spec.by[o].dom[0]})
                yield "query with both", g.query, ([q], {o: spec.by[o].dom[0]}, {ns[0]: spec.by[ns[0]].dom[0]})
                yield "query about two", g.query, ([q, o], {})
                yield "expected_value", g.expected_value, ([q, o], {}, {ns[0]: spec.by[ns[0]].dom[0]})
        yield "outcome out of the domain", g.query, ([ns[-1]], {q: "nowhere"})
    for a in list(g.agents):
        yield "expected_utility", lambda a=a: g.expected_utility({}, agent=a), ()
        yield "expected_utility", lambda a=a: g.expected_utility({ns[0]: spec.by[ns[0]].dom[0]}, agent=a), ()
        yield "expected_utility under intervention", lambda a=a: g.expected_utility({}, {ns[0]: spec.by[ns[0]].dom[0]}, agent=a), ()
    for n in ns[1:]:
        yield "total_effect", p.total_effect, (g, ns[0], n)
        for adapt in (True, False):
            yield "introduced_total_effect", p.introduced_total_effect, (g, ns[0], "D", n, 0, 1, adapt)


def solve_calls(p, g, spec):
    ds = [n.name for n in spec.nodes if n.role == "decision"]
    for d in ds:
        yield "optimal_pure_decision_rules", g.optimal_pure_decision_rules, (d,)
    if hasattr(g, "solve"):
        yield "solve", g.solve, ()
        yield "optimal_policies", lambda: g.optimal_policies() if len(ds) < 2 else g.optimal_pure_policies(ds[:1]), ()
        for n in spec.nodes[:4]:
            yield "quantitative_voi", p.quantitative_voi, (g, ds[-1], n.name)
            if len(ds) < 2 and n.name != "X":
                yield "quantitative_voc", p.quantitative_voc, (g, n.name)
    else:
        yield "policies of one agent", g.optimal_pure_policies, ([d for d in ds if spec.by[d].agent == spec.by[ds[0]].agent][:1],)
        yield "policies of two agents", g.optimal_pure_policies, (ds,)


def game_calls(p, g, spec):
    ds = [n.name for n in spec.nodes if n.role == "decision"]
    yield "macid_to_efg", p.macid_to_efg, (g,)
    yield "macid_to_gambit_file", to_file, (p, g)
    yield "get_ne", g.get_ne, ()
    yield "get_spe", g.get_spe, ()
    for d in ds:
        yield "create_subgame", g.create_subgame, ([d],)
        yield "get_ne_in_sg", g.get_ne_in_sg, ([d],)
    yield "create_subgame", g.create_subgame, (ds,)


def to_file(p, g):
    fd, f = tempfile.mkstemp(suffix=".efg")
    os.close(fd)
    try:
        return p.macid_to_gambit_file(g, f)
    finally:
        os.unlink(f)


def uniform(game, name, opts):
    from fractions import Fraction
    return [gambit_stub.Profile({i: [Fraction(1, len(i.actions))] * len(i.actions) for i in game.infosets})]


def prepare(ctx, g, spec, state):
    ds = [n.name for n in spec.nodes if n.role == "decision"]
    if state == "random":
        for d in ds:
            g.impute_random_decision(d)
    elif state == "optimal":
        for d in ds:
            g.impute_random_decision(d)
        return ctx.call(g.impute_optimal_decision, ds[-1])[0] == "ok"      # refused when a context of the decision has probability zero
    elif state == "partly":
        g.impute_random_decision(ds[0])
    return True


def analyse(ctx, cfg):
    import pycid
    mk, cls = SHAPES[cfg["shape"]]
    nodes = mk("num" if cfg["state"] == "optimal" and cfg["h"] == "sym" else cfg["h"], cfg["u"] if cfg["state"] != "optimal" or cfg["kind"] == "solve" else "num")
    if cfg["h"] == "num" and (cfg["u"] == "num" or cfg["kind"] == "graph"):
        nodes[0].how = "pos"
    spec = Spec(ctx, nodes)
    g = spec.build(cls)
    if not prepare(ctx, g, spec, cfg["state"]):
        return
    ctx.tag(cfg["state"])
    before = snap(g)
    gambit_stub.SOLVE = uniform
    calls = {"graph": lambda: graph_calls(pycid, g), "query": lambda: query_calls(pycid, g, spec), "solve": lambda: solve_calls(pycid, g, spec),
             "game": lambda: game_calls(pycid, g, spec)}[cfg["kind"]]()
    for name, f, args in itertools.islice(calls, cfg["pick"], cfg["pick"] + 1) if "pick" in cfg else calls:
        given = cp.deepcopy([a for a in args if isinstance(a, (dict, list, set, str))]) if name != "policy_profile_assignment" else []
        st, r = ctx.call(f, *args)
        bad = same(before, snap(g))
        ctx.check("the caller's model is unchanged", bad == [], lambda: [name, repr(args)[:100], bad])
        if name != "policy_profile_assignment":
            ctx.check("the caller's arguments are unchanged", given == [a for a in args if isinstance(a, (dict, list, set, str))], lambda: name)
        ctx.tag("analysed" if st == "ok" else "refused without change")
        if bad:
            return
        if st == "ok" and name != "policy_profile_assignment":
            spoil(r)
            bad = same(before, snap(g))
            ctx.check("changes to a result leave the model alone", bad == [], lambda: [name, repr(args)[:100], bad])
            ctx.tag("result changed")
            if bad:
                return
    ctx.out("nodes", before["nodes"])


def spoil(r):
    """change everything that can be changed about a result"""
    import networkx as nx
    from pgmpy.factors.discrete import DiscreteFactor
    if isinstance(r, dict):
        for v in list(r.values()):
            spoil(v)
        r.clear()
    elif isinstance(r, (list, tuple, set, frozenset)):
        for v in list(r):
            spoil(v)
        if isinstance(r, (list, set)):
            r.clear()
    elif isinstance(r, DiscreteFactor):
        r.values[...] = 0
        r.variables.append("more")
    elif hasattr(r, "model") and hasattr(r, "get_cpds"):
        for v in ("agent_decisions", "agent_utilities"):
            for l in getattr(r, v, {}).values():
                l.clear()
        for v in ("agent_decisions", "agent_utilities", "decision_agent", "utility_agent"):
            getattr(r, v, {}).clear()
        for c in list(r.get_cpds()):
            spoil(c)
        r.model.domain.clear()
        nx.DiGraph.clear(r)
    elif isinstance(r, nx.DiGraph):
        spoil(r.graph)
        r.clear()


# ---- copies ---------------------------------------------------------------------------------------------
def m_network(ctx):
    return [N("A", "", [0, 1], "dict"), N("B", "A", [0, 1]), N("C", "A B", [0, 2], "table")], "CBN"


def m_diagram(ctx):
    return [N("A", "", [0, 1], "table"), D("B", "A", [1, 0]), U("C", "A B", [0, 2])], "CID"


def m_game(ctx):
    return [N("A", "", [1, 0]), D("B", "A", [0, 1], agent="p"), U("C", "A B", [0, 2], agent="q", style="table")], "MACID"


COPIES = {"network": m_network, "diagram": m_diagram, "game": m_game}


def table(ctx, v, dom, p):
    from pgmpy.factors.discrete import TabularCPD
    return TabularCPD(v, len(dom), [[p], [1 - p]] if len(dom) == 2 else [[p], [0 * p], [1 - p]], state_names={v: list(dom)})


EDITS = [
    ("new dictionary for A", lambda ctx, g: g.add_cpds(A={0: ctx.real("new", 0, 1), 1: 1 - ctx.real("new", 0, 1)})),
    ("wider A", lambda ctx, g: g.add_cpds(A={0: ctx.real("new", 0, 1), 1: (1 - ctx.real("new", 0, 1)) / 2, 2: (1 - ctx.real("new", 0, 1)) / 2})),
    ("table for A", lambda ctx, g: g.add_cpds(table(ctx, "A", [1, 0], ctx.real("new", 0, 1)))),
    ("function for B", lambda ctx, g: g.add_cpds(B=lambda A: {0: ctx.real("new", 0, 1), 1: 1 - ctx.real("new", 0, 1)} if A else {1: 1})),
    ("function for C", lambda ctx, g: g.add_cpds(C=lambda **pv: sum(pv.values()))),
    ("no distribution for A", lambda ctx, g: g.remove_cpds("A")),
    ("remove link AB", lambda ctx, g: g.remove_edge("A", "B")),
    ("remove link AC", lambda ctx, g: g.remove_edge("A", "C")),
    ("new node", lambda ctx, g: (g.add_node("Z"), g.add_edge("Z", "A"))),
    ("remove node C", lambda ctx, g: g.remove_node("C")),
    ("remove node A", lambda ctx, g: g.remove_node("A")),
    ("remove node B", lambda ctx, g: g.remove_nodes_from(["B"])),
    ("intervene on A", lambda ctx, g: g.intervene({"A": 1})),
    ("intervene on B", lambda ctx, g: g.intervene({"B": 0})),
    ("random decision", lambda ctx, g: g.impute_random_decision("B")),
    ("expectation decision", lambda ctx, g: g.impute_conditional_expectation_decision("B", "A")),
    ("remove rules", lambda ctx, g: g.remove_all_decision_rules()),
    ("another decision", lambda ctx, g: g.make_decision("A", "p")),
    ("B by chance", lambda ctx, g: g.make_chance("B")),
    ("another utility", lambda ctx, g: g.make_utility("A", "q")),
    ("more in a table", lambda ctx, g: tamper(g, "A")),
    ("more in domains", lambda ctx, g: g.model.domain.__setitem__("A", g.model.domain["A"] + [9])),
    ("other roles", lambda ctx, g: [v.append("A") for v in g.agent_decisions.values()]),
]


# edits after which a relationship no longer fits its node's parents, or that reach into the model's data
MISFIT = {"wider A", "function for B", "function for C", "no distribution for A", "remove link AB", "remove link AC", "new node", "more in a table",
          "more in domains", "other roles"}


def tamper(g, n):
    c = g.get_cpds(n)
    c.values[0] = c.values[1]


def twin_state(g):
    s = snap(g)
    s.pop("rel")
    return s


def copies(ctx, cfg):
    nodes, cls = COPIES[cfg["model"]](ctx)
    spec = Spec(ctx, nodes)
    g, h, h2 = spec.build(cls), spec.build(cls), spec.build(cls)
    if cls != "CBN":
        pre = ctx.choice("policy before", ["open", "random"] if cfg["model"] == "diagram" else ["open"])
        if pre == "random":
            for x in (g, h, h2):
                x.impute_random_decision("B")
    c = g.copy()
    ctx.check("same class", type(c) is type(g))
    ctx.check("a copy is equal", same(twin_state(g), twin_state(c)) == [], lambda: same(twin_state(g), twin_state(c)))
    if cfg["first"] == 0:
        answers(ctx, g, c, spec)
    first, second, ctl = (c, g, (h, h2)) if cfg["side"] == "copy" else (g, c, (h, h2))
    plan1 = [cfg["first"]]
    applicable = [i for i, (n, _) in enumerate(EDITS) if cls != "CBN" or "decision" not in n and "rules" not in n and "utility" not in n
                  and "chance" not in n and "roles" not in n]
    if cfg["first"] not in applicable:
        return
    for k in range(1, cfg["n1"]):
        nxt = ctx.choice(f"edit {k}", [None] + applicable[cfg["first"] % cfg["every"]::cfg["every"]])
        if nxt is None:
            break
        plan1.append(nxt)
    for i in plan1:
        r1 = ctx.call(EDITS[i][1], ctx, first)
        r2 = ctx.call(EDITS[i][1], ctx, ctl[0])
        ctx.check("edits work alike", r1[0] == r2[0] and (r1[0] == "ok" or r1[1] == r2[1]), lambda: [EDITS[i][0], r1, r2])
    ctx.tag(cfg["side"] + " edited")
    if not {EDITS[i][0] for i in plan1} & MISFIT:
        st, again = ctx.call(first.copy)
        ctx.check("an edited model can be copied", st == "ok", lambda: [repr(ctx.last_exc), [EDITS[i][0] for i in plan1]])
        if st == "ok":
            bad = [k for k in same(twin_state(first), twin_state(again)) if k != "kinds"]
            ctx.check("a copy of the edited model is equal", bad == [], lambda: [bad, [EDITS[i][0] for i in plan1]])
    bad = same(twin_state(ctl[1]), twin_state(second))
    ctx.check("the other one is unaffected", bad == [], lambda: [bad, [EDITS[i][0] for i in plan1]])
    bad = same(twin_state(ctl[0]), twin_state(first))
    ctx.check("the edited one is as without copying", bad == [], lambda: [bad, [EDITS[i][0] for i in plan1]])
    for k in range(cfg["n2"]):
        i = ctx.choice(f"later edit {k}", applicable[cfg["first"] % 2::2] if cfg["every"] > 1 else applicable)
        r1 = ctx.call(EDITS[i][1], ctx, second)
        r2 = ctx.call(EDITS[i][1], ctx, ctl[1])
        ctx.check("later edits work alike", r1[0] == r2[0] and (r1[0] == "ok" or r1[1] == r2[1]), lambda: [EDITS[i][0], r1, r2])
        bad = same(twin_state(ctl[1]), twin_state(second))
        ctx.check("later edits have the effect they have without copying", bad == [], lambda: [bad, [EDITS[j][0] for j in plan1], EDITS[i][0]])
        bad = same(twin_state(ctl[0]), twin_state(first))
        ctx.check("and leave the first one alone", bad == [], lambda: [bad, [EDITS[j][0] for j in plan1], EDITS[i][0]])
    ctx.out("edits", [EDITS[i][0] for i in plan1])


def answers(ctx, g, c, spec):
    for q in "ABC":
        r1, r2 = ctx.call(g.query, [q], {}), ctx.call(c.query, [q], {})
        ctx.check("answers of the same kind", r1[0] == r2[0])
        if r1[0] == "ok":
            for o in spec.by[q].dom:
                ctx.eq("the same answers", value_of(r1[1], {q: o}), value_of(r2[1], {q: o}))
            ctx.tag("answers agree")


def body(ctx, cfg):
    DRAWS.reset(ctx, 3)
    try:
        with random_stand_ins(importlib.import_module("pycid.core.cid")):
            copies(ctx, cfg) if cfg["kind"] == "copy" else analyse(ctx, cfg)
    finally:
        DRAWS.reset(None, 0)
