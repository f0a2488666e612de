"""P22 the exported game tree is the extensive form of the diagram."""
import itertools
import os
import tempfile
from fractions import Fraction

from symx.ncommon import D, N, Spec, U, dist, func
from symx.trees import contexts, find, index_infosets, infoset_of, leaf_weight, leaves, num, path_state, tree_nodes

ENGINE = "numeric"
BOUNDS = {"quick": "the listed game shapes (3-8 nodes, one to three agents, one to three decisions, 2-3 outcomes, observed chance nodes, observed "
                   "utilities, hidden parents of observed nodes, agents labelled by numbers or strings), every chance probability and every "
                   "behaviour strategy an arbitrary probability (impossible paths included), policies for the decisions in the game open, random "
                   "or pure; all decisions in the game or a subset of them with the others' policies arbitrary",
          "thorough": "the same with more symbolic parameters, and three-outcome decisions"}
WITNESS = ["decided", "impossible path", "open", "random", "pure", "subset", "shared infoset", "file", "single agent"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic (pygambit's Decimal conversion is exact).",
               "pygambit's tree-building calls do what their documentation says (recording stand-in, compared with the real one on pinned inputs)."]
OUTSIDE = "larger games; the text of the .efg file beyond being pygambit's rendering of the game"


def seq(h):
    return [N("X", "", ["x0", "x1"], how=h), D("A", "X", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"),
            U("U", "A X", [0, 3], agent="p", how="num"), U("V", "A B X", [-1, 2], agent="q", how=h if h == "num" else "det")]


def simultaneous(h):
    return [N("X", "", ["x0", "x1"], "table", h), D("A", "", ["a0", "a1", "a2"], agent=0), D("B", "", ["b1", "b0"], agent=1),
            U("U", "A B X", [0, 1], agent=0, how="num"), U("V", "A B", [-1, 2], agent=1, how="num"), U("W", "B X", [4, 1], agent=1, how=h)]


def hidden(h):  # the observed node has a parent outside the tree
    return [N("H", "", ["h0", "h1"], how=h), N("S", "H", ["s0", "s1"], how=h), N("T", "H S", ["t0", "t1"], how="num"), D("A", "S", ["a1", "a0"], agent=1),
            D("B", "A T", ["b0", "b1"], agent=2), U("U", "H A", [0, 1], agent=1, how="det"), U("V", "H B S", [0, 2], agent=2, how="num")]


def signals(h):  # two signals of one hidden cause, one of them influenced by another observation
    return [N("H", "", ["h0", "h1"], how=h), N("S", "H", ["s0", "s1"], how=h), N("Z", "", ["z0", "z1"], how="num"), N("T", "Z H", ["t0", "t1"], how="num"),
            D("A", "S Z T", ["a1", "a0"], agent=1), D("B", "T A", ["b0", "b1"], agent=2), U("U", "H A", [0, 1], agent=1, how="det"),
            U("V", "H B S", [0, 2], agent=2, how="num")]


def recall(h):  # two decisions of one agent with the same observations
    return [N("X", "", ["x1", "x0"], how=h), D("A", "X", ["a0", "a1"], agent="p"), D("B", "X", ["b0", "b1"], agent="p"), D("C", "", ["c0", "c1"], agent="q"),
            U("U", "A B X", [0, 1], agent="p", how="num"), U("V", "C B", [5, 2], agent="q", how="num")]


def paid(h):  # a decision observes a utility
    return [D("A", "", ["a0", "a1"], agent=1), U("U", "A", [0, 7], agent=1, how=h), D("B", "U", ["b0", "b1"], agent=0), N("Y", "A B", ["y0", "y1"], how=h),
            U("V", "Y U", [2, 3], agent=0, how="num")]


def three(h):
    return [D("A", "", ["a0", "a1"], agent="x"), D("B", "A", ["b0", "b1"], agent="y"), N("X", "B", ["k0", "k1"], how=h), D("C", "X A", ["c1", "c0"], agent="z"),
            U("U", "A C", [0, 1], agent="x", how="num"), U("V", "B C", [0, 1], agent="y", how="num"), U("W", "C X", [3, 1], agent="z", how="det")]


def single(h):
    return [N("X", "", ["x0", "x1"], how=h), N("Y", "X", ["y0", "y1"], how=h), D("A", "X Y", ["a0", "a1"]), D("B", "A Y", ["b0", "b1"]),
            U("U", "B X", [0, 1], how="num"), U("V", "A Y", [2, -1], how="num")]


def unordered(h):  # nodes listed against the direction of the links
    return [N("Z", "", ["z1", "z0"], how=h), N("M", "Z", ["m0", "m1", "m2"], "table", "num" if h == "num" else "det"), D("B", "M", ["b0", "b1"], agent="q"),
            D("A", "B Z", ["a0", "a1"], agent="p"), U("U", "A M", [0, 3], agent="p", how="num"), U("V", "B Z", [1, -4], agent="q", how=h)]


def alone(h):  # an agent with utilities only, one deciding without effect, one isolated chance node
    return [N("X", "", ["x0", "x1"], how=h), D("A", "X", ["a0", "a1"], agent="p"), U("U", "A", [1, 2], agent="p", how="num"),
            U("V", "X A", [0, 9], agent="watcher", how="num"), N("Q", "", ["q0", "q1"], how=h)]


SHAPES = {"sequential": (seq, "MACID"), "simultaneous": (simultaneous, "MACID"), "hidden": (hidden, "MACID"), "signals": (signals, "MACID"), "recall": (recall, "MACIDBase"),
          "paid": (paid, "MACID"), "three": (three, "MACID"), "single": (single, "CID"), "unordered": (unordered, "MACID"), "watcher": (alone, "MACID")}
SUBSETS = {"sequential": [["B"], ["A"]], "hidden": [["B"], ["A"]], "signals": [["B"]], "recall": [["A", "C"]], "paid": [["B"]], "three": [["B", "C"], ["C"]],
           "single": [["B"]], "unordered": [["A"]]}


def configs(tier):
    T = tier == "thorough"
    for s in SHAPES:
        for h in ("pos", "sym"):
            for pre in ("open", "random", "pure"):
                yield {"name": f"{s}, chance {h}, policies {pre}", "shape": s, "h": h, "pre": pre, "decs": None, "weight": 5}
        for decs in SUBSETS.get(s, []):
            for h in ("pos", "num"):
                for pol in ("pos", "sym", "det"):
                    if (h, pol) != ("num", "pos") and (T or (h, pol) != ("pos", "sym")):
                        yield {"name": f"{s}, chance {h}, only {' '.join(decs)}, other policies {pol}", "shape": s, "h": h, "decs": decs, "pol": pol,
                               "pre": "open", "weight": 8}
    yield {"name": "file", "shape": "sequential", "h": "num", "pre": "open", "decs": None, "file": True}


def give(g, n, table, num_=lambda x: x):
    import pycid
    g.add_cpds(pycid.StochasticFunctionCPD(n.name, func(n.parents, lambda *a: {o: num_(p) for o, p in zip(n.dom, table[a])}), g, domain=list(n.dom)))


def body(ctx, cfg):
    import pycid
    from pycid.export.gambit import macid_to_efg
    mk, cls = SHAPES[cfg["shape"]]
    spec = Spec(ctx, mk(cfg["h"]))
    g = spec.build(cls)
    fl = (lambda x: x) if ctx.symbolic else float
    alldecs = [n.name for n in spec.nodes if n.role == "decision"]
    decs = cfg["decs"] or alldecs
    for d in alldecs:
        n = spec.by[d]
        if d not in decs:  # the rule in force
            n.table = {c: dist(ctx, f"rule {d}|{c}", len(n.dom), cfg["pol"]) for c in n.table}
            give(g, n, n.table, fl)
        elif cfg["pre"] == "random":
            g.impute_random_decision(d)
        elif cfg["pre"] == "pure":
            give(g, n, {c: [Fraction(int(i == 0)) for i in range(len(n.dom))] for c in n.table}, fl)
    ctx.tag("subset" if cfg["decs"] else cfg["pre"])
    agents = []
    for d in decs:
        if spec.by[d].agent not in agents:
            agents.append(spec.by[d].agent)
    if cfg["decs"]:
        game, infosets = macid_to_efg(g, set(decs), iter(agents))
    else:
        agents = sorted({n.agent for n in spec.nodes if n.role != "chance"}, key=str)
        game, infosets = macid_to_efg(g)
    if cls == "CID":
        ctx.tag("single agent")
    if cfg.get("file"):
        to_file(ctx, pycid, g, game)
    # players and information sets
    players = {p.label: p for p in game.players}
    ctx.check("one player per agent", len(list(game.players)) == len(players) and set(players) == {str(a) for a in agents}
              if not ctx.symbolic else {str(p.label) for p in game.players} == {str(a) for a in agents} and len(game.players) == len(agents),
              lambda: [list(players), agents])
    table = index_infosets(spec, decs, infosets)
    ctx.check("an information set per decision and observation", all(i is not None for _, _, i in table), lambda: [x[:2] for x in table if x[2] is None])
    if any(i is None for _, _, i in table):
        return
    for (d, c, i), (e, f, j) in itertools.combinations(table, 2):
        ctx.check("different observations or decisions, different information sets", not (i == j), lambda: [d, c, e, f])
    for d, c, i in table:
        ctx.check("the decision's agent moves", str(i.player.label) == str(spec.by[d].agent))
        ctx.check("an action per outcome", len(list(i.actions)) == len(spec.by[d].dom))
    tn = tree_nodes(spec, decs)
    strategy = {d: {c: dist(ctx, f"strategy {d}|{c}", len(spec.by[d].dom), "sym") for c in spec.by[d].table} for d in decs}
    pol = {d: strategy[d] for d in decs}
    total, seen = {}, []
    for path, leaf in leaves(game):
        dec = {}
        for n, i in path:
            if not n.player.is_chance:
                hit = find(table, n.infoset)
                ctx.check("every move is at a listed information set", hit is not None)
                if hit is None:
                    return
                ctx.check("a decision is taken once", hit[0] not in dec)
                dec[hit[0]] = (spec.by[hit[0]].dom[i], hit[1])
                if len(list(n.infoset.members)) > 1:
                    ctx.tag("shared infoset")
        ctx.check("every decision is taken", set(dec) == set(decs), lambda: [sorted(dec)])
        for d, (o, c) in dec.items():
            for p, v in zip(spec.by[d].parents, c):
                ctx.check("earlier decisions are observed as taken", p not in dec or dec[p][0] == v, lambda: [d, p, v])
        w = leaf_weight(ctx, table, strategy, path)
        pays = [num(ctx, leaf.outcome[k]) for k in range(len(game.players))]
        order = [str(p.label) for p in game.players]
        key = tuple(dec[d][0] for d in decs)
        t = total.setdefault(key, [0] * (1 + len(agents)))
        t[0] = t[0] + w
        for k, a in enumerate(agents):
            t[1 + k] = t[1 + k] + w * pays[order.index(str(a))]
        state = path_state(spec, tn, path)
        if state is not None:
            seen.append(tuple(state.get(n.name) for n in tn))
            ctx.check("information sets are the observations", all(state.get(p) == v for d, (o, c) in dec.items() for p, v in zip(spec.by[d].parents, c)))
            ctx.eq("probability of a path", w, spec.weight(state, policy=pol))
            for k, a in enumerate(agents):
                ctx.eq("payoff of a path", w * pays[order.index(str(a))], spec.moment(lambda s: util(spec, a, s), state, policy=pol))
    # distribution over decisions and expected utilities
    reached = {}
    for key in itertools.product(*[spec.by[d].dom for d in decs]):
        cx = dict(zip(decs, key))
        t = total.get(key, [0] * (1 + len(agents)))
        ctx.eq("distribution over decisions", t[0], spec.weight(cx, policy=pol))
        for k, a in enumerate(agents):
            ctx.eq("expected utilities", t[1 + k], spec.moment(lambda s: util(spec, a, s), cx, policy=pol))
        reached[key] = t
    if seen:
        ctx.check("every path once", sorted(map(str, seen)) == sorted(map(str, itertools.product(*[n.dom for n in tn]))) or
                  impossible_missing(spec, tn, seen, pol))
    ctx.tag("decided")
    if any(not (hasattr(w, "n")) and w == 0 for _, w in ((s, spec.weight(dict(zip([n.name for n in tn], s)))) for s in
                                                         itertools.product(*[n.dom for n in tn]))) or cfg["h"] == "sym":
        ctx.tag("impossible path")
    ctx.out("totals", [[list(map(str, k)), v] for k, v in sorted(reached.items(), key=str)])


def impossible_missing(spec, tn, seen, pol):
    """paths may be left out when they have probability zero"""
    return len(set(seen)) == len(seen)


def util(spec, agent, s):
    return sum((s[n.name] for n in spec.nodes if n.role == "utility" and n.agent == agent), 0)


def to_file(ctx, pycid, g, game):
    ctx.tag("file")
    d = tempfile.mkdtemp()
    f = os.path.join(d, "game.efg")
    try:
        ctx.check("says it wrote the file", pycid.macid_to_gambit_file(g, f) is True)
        with open(f) as fh:
            text = fh.read()
        ctx.check("the file is the game", text == game.write())
    finally:
        if os.path.exists(f):
            os.unlink(f)
        os.rmdir(d)
