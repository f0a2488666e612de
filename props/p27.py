"""P27 created subgames are the relevant part of the game."""
import itertools
import warnings

from symx.gspec import SG, relevant
from symx.ncommon import D, N, Spec, U, dist, same, snap, value_of

ENGINE = "numeric"
BOUNDS = {"quick": "the listed games (one to three agents, one to four decisions, observed and hidden chance nodes, isolated and irrelevant decisions, "
                   "utilities with effects) and every non-empty set of their decisions, given as a list, a set or an iterator; every chance and utility probability "
                   "arbitrary or fixed, rules of the other decisions open, fixed or arbitrary, rules of the subgame's decisions arbitrary",
          "thorough": "the same with every parameter arbitrary at once"}
WITNESS = ["subgame", "everything", "left out", "cut off", "another's utility", "isolated decision", "given rule", "the same values", "no utility"]
ASSUMPTIONS = ["Exact real arithmetic."]
OUTSIDE = "larger games; decisions of the subgame that rely on open decisions outside it"
TIMEOUT_MS = 60000


def seq(h, u):
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b1", "b0"], agent="q"), U("U", "A B", [0, 3], agent="p", how=u), U("V", "B A", [-1, 1], agent="q", how=u)]


def hidden(h, u):  # an observation with causes that do not matter
    return [N("H", "", [0, 1], how=h), N("X", "H", [1, 0], "table", h), D("A", "X", ["a0", "a1"], agent="p"), U("U", "A", [0, 3], agent="p", how=u), D("B", "A X", [0, 1], agent=2),
            U("V", "B A", [2, 1], agent=2, how=u), N("Z", "V", [0, 1], how="num")]


def signal(h, u):
    return [N("X", "", ["x0", "x1"], how=h), D("A", "X", [0, 1], agent=1), N("M", "A X", [0, 1], how="num"), D("B", "M", [0, 1], agent=2), U("U", "B X", [0, 2], agent=1, how=u),
            U("V", "B X", [-1, 1], agent=2, how="num")]


def apart(h, u):
    return [D("A", "", ["a0", "a1"], agent=1), D("B", "A", ["b0", "b1"], agent=0), U("U", "A", [0, 3], agent=1, how=u), U("V", "A B", [-1, 1], agent=0, how=u)]


def noisy(h, u):
    return [N("X", "", ["x0", "x1"], how=h), N("S", "X", ["s0", "s1"], how=h), D("O", "X", ["o0", "o1"], agent="r"), D("A", "S O", ["a0", "a1"], agent="p"),
            U("U", "A S", [0, 1], agent="p", how=u), U("W", "O", [0, 1], agent="r", how="num")]


def team(h, u):
    return [D("A", "", [0, 1], agent=0), D("B", "", [0, 1], agent=1), D("C", "", [0, 1], agent=2), U("U", "A B", [0, 3], agent=0, how=u),
            U("V", "B C", [-1, 1], agent=1, how=u), U("W", "C", [2, 1], agent=2, how=u)]


def through(h, u):  # another agent's utility is on the way to one's own
    return [N("X", "", [0, 1], how=h), D("A", "X", [0, 1], agent="p"), U("V", "A X", [0, 1], agent="q", how=h), U("U", "V", [0, 3], agent="p", how=u), U("W", "A", [1, 2], agent="p", how="num")]


def alone(h, u):  # decisions that influence nothing their agent values
    return [D("A", "", [0, 1, 2], agent="p"), D("B", "", [0, 1], agent="q"), N("X", "B", [0, 1], how=h), U("U", "A X", [0, 3], agent="p", how=u), U("V", "", [0, 1], agent="q", how="num")]


def chain(h, u):
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), D("C", "B", ["c0", "c1"], agent="r"), U("U", "A B C", [0, 3], agent="p", how="num"),
            U("V", "B C", [-1, 1], agent="q", how="num"), U("W", "C B", [2, 1], agent="r", how=u)]


def again(h, u):
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), D("C", "B", ["c1", "c0"], agent="p"), U("U", "A C", [0, 3], agent="p", how=u),
            U("V", "B C", [-1, 1], agent="q", how=u)]


def causes(h, u):  # two observations with a common cause, one of which matters
    return [N("H", "", [0, 1], how=h), N("X", "H", [0, 1], how=h), N("Y", "H", [0, 1, 2], "table", "num"), D("A", "X Y", [1, 0], agent=0), N("Z", "A Y", [0, 1], how="num"),
            U("U", "Z", [0, 1], agent=0, how=u), D("B", "X", [0, 1], agent=1), U("V", "B H", [0, 1], agent=1, how=u)]


GAMES = {f.__name__: f for f in (seq, hidden, signal, apart, noisy, team, through, alone, chain, again, causes)}


def configs(tier):
    T = tier == "thorough"
    for s, mk in GAMES.items():
        ds = [n.name for n in mk("num", "num") if n.role == "decision"]
        for k in range(1, len(ds) + 1):
            for sub in itertools.combinations(ds, k):
                for what, h, u, mine, others in (("chances", "sym", "num", "num", "num"), ("utilities", "num", "sym", "num", "open"), ("own rules", "num", "num", "sym", "num"),
                                                 ("other rules", "num", "num", "num", "sym")) + ((("all", "sym", "sym", "sym", "sym"),) if T else ()):
                    if what == "other rules" and len(sub) == len(ds):
                        continue
                    yield {"name": f"{s}: {' '.join(sub)}, any {what}", "game": s, "sub": list(sub), "h": h, "u": u, "mine": mine, "others": others, "weight": 1 + 20 * (what == "all")}


def body(ctx, cfg):
    spec = Spec(ctx, GAMES[cfg["game"]](cfg["h"], cfg["u"]))
    decs = [n.name for n in spec.nodes if n.role == "decision"]
    act = cfg["sub"]
    G = SG([n.name for n in spec.nodes], {e: True for e in spec.edges()})
    utils = lambda a: [n.name for n in spec.nodes if n.role == "utility" and n.agent == a]
    rel = {n.name for n in spec.nodes if any(relevant(G, d, n.name, utils(spec.by[d].agent)) for d in act)}
    # rules of the other decisions
    for d in decs:
        n = spec.by[d]
        if d not in act and cfg["others"] != "open":
            n.style = "func"
            n.table = {c: dist(ctx, f"given {d}|{c}", len(n.dom), cfg["others"]) for c in n.table}
            ctx.tag("given rule")
    g = spec.build("MACID")
    before = snap(g)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st, sg = ctx.call(g.create_subgame, {"list": list, "set": set, "iterator": iter}[ctx.choice("as", ["list", "set", "iterator"])](act))
    ctx.check("created", st == "ok", lambda: repr(ctx.last_exc))
    ctx.check("the game is unchanged", same(before, snap(g)) == [])
    if st != "ok":
        return
    core = rel | set(act)
    edges = [e for e in spec.edges() if e[1] in core]
    nodes = core | {u for u, _ in edges}
    ctx.check("the nodes", set(sg.nodes) == nodes, lambda: [sorted(sg.nodes), sorted(nodes)])
    ctx.check("the links", sorted(sg.edges) == sorted(edges), lambda: [sorted(sg.edges), sorted(edges)])
    ctx.check("the decisions", dict(sg.decision_agent) == {d: spec.by[d].agent for d in act}, lambda: dict(sg.decision_agent))
    own = {n.name: n.agent for n in spec.nodes if n.role == "utility" and n.name in rel}
    ctx.check("the utilities", dict(sg.utility_agent) == own, lambda: [dict(sg.utility_agent), own])
    ctx.check("owners listed", {a: sorted(v) for a, v in sg.agent_decisions.items() if v} ==
              {a: sorted(d for d in act if spec.by[d].agent == a) for a in {spec.by[d].agent for d in act}})
    ctx.tag("everything" if nodes == set(spec.by) else "left out")
    if set(sg.nodes) != nodes or sorted(sg.edges) != sorted(edges):
        return
    if len({spec.by[u].agent for u in own} - {spec.by[d].agent for d in act}):
        ctx.tag("another's utility")
    if any(not any(d in e for e in edges) for d in act):
        ctx.tag("isolated decision")
    # the distributions, read back by outcome
    part = []
    for n in spec.nodes:
        if n.name not in nodes:
            continue
        cpd = sg.get_cpds(n.name)
        ctx.check("a distribution each", cpd is not None, lambda: n.name)
        if cpd is None:
            return
        ps = n.parents if n.name in core else []
        ctx.check("the outcomes", sorted(map(str, sg.model.domain[n.name])) == sorted(map(str, n.dom)) and set(cpd.state_names[n.name]) == set(n.dom), lambda: n.name)
        ctx.check("the parents", sorted(cpd.variables[1:]) == sorted(ps), lambda: [n.name, cpd.variables])
        k = N(n.name, ps, n.dom, "table", None, "chance" if n.role == "decision" and n.name not in act else n.role, n.agent)
        k.table = {}
        for c in itertools.product(*[spec.by[p].dom for p in ps]):
            k.table[c] = [value_of(cpd, {**dict(zip(ps, c)), n.name: o}) for o in n.dom]
            ctx.eq("a proper distribution", sum(k.table[c]), 1)
            if n.name in rel - set(act):
                for p, q in zip(k.table[c], n.table[c]):
                    ctx.eq("relevant distributions are kept", p, q)
            else:
                ctx.geq_all("no negative probability", [(p, 0) for p in k.table[c]])
        if n.name not in core and n.parents:
            ctx.tag("cut off")
        part.append(k)
    ctx.tag("subgame")
    small = Spec.__new__(Spec)
    small.nodes, small.by, small.ctx = part, {n.name: n for n in part}, ctx
    # what the agents can expect at each of the decisions
    policy = {d: {c: dist(ctx, f"rule {d}|{c}", len(spec.by[d].dom), cfg["mine"]) for c in spec.by[d].table} for d in act}
    for d in act:
        us = [u for u in utils(spec.by[d].agent) if G.reach(d, u)]
        if not us:
            ctx.tag("no utility")
            continue
        ctx.check("its utilities are there", set(us) <= nodes)
        f = lambda a: sum(a[u] for u in us)
        for c in itertools.product(*[spec.by[p].dom for p in spec.by[d].parents]):
            for o in spec.by[d].dom:
                given = {**dict(zip(spec.by[d].parents, c)), d: o}
                z1, z2 = spec.weight(given, policy=policy), small.weight(given, policy=policy)
                m1, m2 = spec.moment(f, given, policy=policy), small.moment(f, given, policy=policy)
                ctx.eq("the same expectations at the decisions", m1 * z2, m2 * z1)
                ctx.tag("the same values")
    ctx.out("nodes", sorted(nodes))
