"""P23 equilibria returned are equilibria of the diagram."""
import itertools
import warnings
from fractions import Fraction

from symx import gambit_stub
from symx.ncommon import D, N, Spec, U, dist, rule_of
from symx.trees import leaves, num

ENGINE = "numeric"
BOUNDS = {"quick": "the listed games (two or three agents, two or three decisions, 2-3 outcomes, observed and hidden chance nodes), payoffs "
                   "arbitrary within a range (the probabilities of two utility outcomes are arbitrary) or fixed, chance and given policies fixed "
                   "or arbitrary; the solver returns up to two arbitrary profiles per game (the zero rule at information sets the player's own "
                   "moves exclude), assumed to be equilibria of the game tree wherever that is used; every named solver",
          "thorough": "the same with more arbitrary parameters and two profiles per game throughout"}
WITNESS = ["prescribed", "no gain", "subgame perfect", "several", "unreached", "fallback", "no equilibrium", "refused solver"]
ASSUMPTIONS = ["BeliefPropagation.query is the normalised sum-product.", "Exact real arithmetic.",
               "pygambit's solvers return equilibria of the game they are given, with all-zero rules only where the player's own moves or chance exclude the "
               "information set (checked against the real solvers on pinned inputs).",
               "pygambit's tree-building calls do what their documentation says (recording stand-in, compared with the real one on pinned inputs)."]
OUTSIDE = "larger games; completeness of the solvers' equilibrium lists"


def seq(u):
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b1", "b0"], agent="q"), U("U", "A B", [0, 3], agent="p", how=u), U("V", "B A", [-1, 1], agent="q", how=u)]


def sim(u):
    return [D("A", "", [0, 1], agent=0), D("B", "", [1, 0], agent=1), U("U", "A B", [0, 3], agent=0, how=u), U("V", "B A", [-1, 1], agent=1, how=u)]


def signal(u):
    return [N("X", "", ["x0", "x1"], how="num"), D("A", "X", [0, 1], agent=1), D("B", "A", [0, 1], agent=2), U("U", "B X", [0, 2], agent=1, how="num"),
            U("V", "B X", [-1, 1], agent=2, how=u)]


def apart(u):  # neither decision relies on the other
    return [D("A", "", ["a0", "a1"], agent=1), D("B", "A", ["b0", "b1"], agent=0), U("U", "A", [0, 3], agent=1, how=u), U("V", "A B", [-1, 1], agent=0, how=u)]


def noisy(u):  # an observation of something irrelevant, and an irrelevant upstream decision
    return [N("X", "", ["x0", "x1"], how="num"), N("S", "X", ["s0", "s1"], how="num"), D("O", "X", ["o0", "o1"], agent="r"), D("A", "S O", ["a0", "a1"], agent="p"),
            U("U", "A S", [0, 1], agent="p", how=u), U("W", "O", [0, 1], agent="r", how="num")]


def pooled(u):  # B learns about X only through a decision that ignores B
    return [N("X", "", ["x0", "x1"], how="num"), D("A", "X", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), U("U", "A", [0, 3], agent="p", how=u),
            U("V", "B X", [-1, 1], agent="q", how="num")]


def chain(u):
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), D("C", "B", ["c0", "c1"], agent="r"), U("U", "A B C", [0, 3], agent="p", how="num"),
            U("V", "B C", [-1, 1], agent="q", how="num"), U("W", "C B", [2, 1], agent="r", how=u)]


def again(u):  # one agent moves twice
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), D("C", "B A", ["c1", "c0"], agent="p"), U("U", "A B C", [0, 3], agent="p", how="num"),
            U("V", "B C", [-1, 1], agent="q", how=u)]


def wide(u):
    return [N("X", "", ["x0", "x1"], how="num"), D("A", "X", ["l", "m", "r"], agent="p"), D("B", "", ["b0", "b1"], agent="q"), U("U", "X A B", [0, 3], agent="p", how="num"),
            U("V", "B A", [-1, 1], agent="q", how=u)]


def idle(u):  # the later agents do not care, the first one does
    even = lambda *c: {0: Fraction(1, 2), 1: Fraction(1, 2)}
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), D("C", "B", ["c0", "c1"], agent="r"), U("U", "A B C", [0, 3], agent="p", how="num"),
            U("V", "B C", [0, 1], agent="q", how=even), U("W", "C B", [0, 1], agent="r", how=even)]


def team(u):  # three agents move at once
    return [D("A", "", [0, 1], agent=0), D("B", "", [0, 1], agent=1), D("C", "", [0, 1], agent=2), U("U", "A B", [0, 3], agent=0, how=u),
            U("V", "B C", [-1, 1], agent=1, how="num"), U("W", "C A", [2, 1], agent=2, how="num")]


def follow(u):  # B moves after A, C moves beside B and sees only A
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "A", ["b0", "b1"], agent="q"), D("C", "A", ["c0", "c1"], agent="p"), U("U", "A B C", [0, 3], agent="p", how="num"),
            U("V", "B C", [-1, 1], agent="q", how=u)]


def alone(u):  # a decision that nobody values
    return [D("A", "", ["a0", "a1"], agent="p"), D("B", "", ["b0", "b1"], agent="q"), N("X", "B", ["x0", "x1"], how="num"), U("U", "A X", [0, 3], agent="p", how=u)]


#  name: nodes, subgames (closed sets of decisions), components in an admissible order
GAMES = {"seq": (seq, [["B"], ["A", "B"]], [["B"], ["A"]]), "sim": (sim, [["A", "B"]], [["A", "B"]]), "signal": (signal, [["A", "B"]], [["A", "B"]]),
         "apart": (apart, [["A"], ["B"], ["A", "B"]], [["A"], ["B"]]), "noisy": (noisy, [["A"], ["O"], ["A", "O"]], [["A"], ["O"]]),
         "pooled": (pooled, [["A"], ["A", "B"]], [["A"], ["B"]]), "chain": (chain, [["C"], ["B", "C"], ["A", "B", "C"]], [["C"], ["B"], ["A"]]),
         "idle": (idle, [["C"], ["B", "C"], ["A", "B", "C"]], [["C"], ["B"], ["A"]]),
         "again": (again, [["C"], ["B", "C"], ["A", "B", "C"]], [["C"], ["B"], ["A"]]), "wide": (wide, [["A", "B"]], [["A", "B"]]),
         "team": (team, [["A", "B", "C"]], [["A", "B", "C"]]), "follow": (follow, [["B", "C"], ["A", "B", "C"]], [["B", "C"], ["A"]]), "alone": (alone, [["B"], ["A", "B"]], [["B"], ["A"]])}
SOLVERS = ["enummixed", "enumpure", "lcp", "lp", "simpdiv", "ipa", "gnm"]


def configs(tier):
    T = tier == "thorough"
    for s, (mk, subs, comps) in GAMES.items():
        small = s in ("seq", "sim", "apart", "noisy", "pooled")
        for k in (1, 2):
            yield {"name": f"{s}: {k} equilibria prescribed", "kind": "ne", "game": s, "u": "num", "k": k, "gain": False, "rows": "sym" if k == 1 and (small or T) else "pos"}
        for u in ("num", "sym"):
            for rows in ("pos", "sym"):
                if rows == "pos" and not (u == "sym" and not T and s in ("follow", "again", "chain", "noisy")) or small and u == "num" or T and u == "num":
                    yield {"name": f"{s}: no gain, payoffs {u}, rules {rows}", "kind": "ne", "game": s, "u": u, "k": 1, "gain": True, "rows": rows, "weight": 4}
                    yield {"name": f"{s}: subgame perfect, payoffs {u}, rules {rows}", "kind": "spe", "game": s, "u": u, "k": 1, "rows": rows, "weight": 5}
        yield {"name": f"{s}: every combination", "kind": "spe", "game": s, "u": "num", "k": 2, "weight": 9, "gain": T or s == "idle", "rows": "first" if s == "idle" else "pos"}
        for sub in subs:
            if len(sub) < sum(map(len, comps)):
                for pol in ("open", "num", "sym", "det"):
                    yield {"name": f"{s}: {' '.join(sub)}, other policies {pol}", "kind": "sub", "game": s,
                           "u": "num" if pol in ("sym", "num") or s == "noisy" else "sym", "k": 1, "sub": sub, "pol": pol, "gain": True, "weight": 4,
                           "rows": "sym" if small else "pos"}
        for comp in comps[1:]:
            yield {"name": f"{s}: {' '.join(comp)} with arbitrary rules elsewhere", "kind": "sub", "game": s, "u": "num", "k": 1, "sub": comp, "pol": "pos", "gain": True,
                   "weight": 4}
    for s in ("seq", "again"):
        yield {"name": f"{s}: unreached", "kind": "unreached", "game": s, "u": "num", "k": 1}
    for s in ("sim", "team", "noisy"):
        for f in ("get_ne", "get_spe", "get_ne_in_sg"):
            yield {"name": f"{s}: solvers of {f}", "kind": "solvers", "game": s, "u": "num", "f": f, "k": 1}


class Behavior:
    """what as_behavior() returns: probabilities by information set"""

    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, infoset):
        for i, r in self.rows:
            if i == infoset:
                return r
        raise KeyError(infoset)


class Mixed:
    def __init__(self, b):
        self.b = b

    def as_behavior(self):
        return self.b

    def __getitem__(self, i):
        raise TypeError("not a behaviour profile")


def infosets(game):
    """[(infoset, decision, first path)] of the players in the order of their first path"""
    out = []
    for path, _ in sorted(leaves(game), key=lambda x: [i for _, i in x[0]]):
        for k, (n, _) in enumerate(path):
            if not n.player.is_chance and not any(i == n.infoset for i, _, _ in out):
                out.append((n.infoset, n.infoset.label, "".join(str(i) for _, i in path[:k])))
    return out


def tree_eu(ctx, game, rows):
    """expected payoff per player label"""
    out = {p.label: 0 for p in game.players}
    order = [p.label for p in game.players]
    for path, leaf in leaves(game):
        w = 1
        for n, i in path:
            w = w * (num(ctx, n.infoset.actions[i].prob) if n.player.is_chance else rows[n.infoset][i])
        for k, a in enumerate(order):
            out[a] = out[a] + w * num(ctx, leaf.outcome[k])
    return out


class Solver:
    """The harness's equilibrium solver."""

    def __init__(self, ctx, k, gain, counts=None, how="pos"):
        self.how, self.ctx, self.k, self.gain, self.calls, self.counts = how, ctx, k, gain, [], counts

    def __call__(self, game, name, opts):
        ctx, no = self.ctx, len(self.calls)
        table = infosets(game)
        if not ctx.symbolic and name in ("enummixed", "enumpure"):
            contract(ctx, game, name, table)
        profiles = []
        for j in range(self.k if self.counts is None else self.counts.get(name, 0)):
            rows = [(i, self.row(no, j, d, path, len(list(i.actions)))) for i, d, path in table]
            if self.gain:
                suppose_equilibrium(ctx, game, rows)
            profiles.append(rows)
        self.calls.append((name, [d for _, d, _ in table], profiles, [str(p.label) for p in game.players]))
        return [Behavior(r) if name in ("lp", "lcp") else Mixed(Behavior(r)) for r in profiles]

    def row(self, no, j, d, path, n):
        return dist(self.ctx, f"call {no} profile {j} {d} {path}", n, "num" if self.how == "first" and d != "A" else "sym" if self.how == "first" else self.how)


class Rows:
    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, i):
        return next(r for k, r in self.rows if k == i)


def deviations(rows, mine):
    for pure in itertools.product(*[range(len(r)) for i, r in rows if i in mine]):
        it = iter(pure)
        out = []
        for i, r in rows:
            if i in mine:
                a = next(it)
                r = [Fraction(int(x == a)) for x in range(len(r))]
            out.append((i, r))
        yield out


def suppose_equilibrium(ctx, game, rows):
    base = tree_eu(ctx, game, Rows(rows))
    for p in game.players:
        mine = [i for i, _ in rows if i.player == p]
        for dev in deviations(rows, mine):
            other = tree_eu(ctx, game, Rows(dev))[p.label]
            ctx.assume(base[p.label] >= other - (0 if ctx.symbolic else 1e-7))


def contract(ctx, game, name, table):
    """the real solver's answers are equilibria, zero rows only where the player's own moves exclude the information set"""
    import pygambit
    f = getattr(pygambit.nash, "_real_" + name)
    for prof in (f(game, rational=False) if name == "enummixed" else f(game)):
        b = prof.as_behavior()
        rows = [(i, [float(x) for x in b[i]]) for i, _, _ in table]
        zero = [i for i, r in rows if not any(r)]
        if zero:
            full = [(i, r if any(r) else [1 / len(r)] * len(r)) for i, r in rows]
        else:
            full = rows
        base = tree_eu(ctx, game, Rows(full))
        for p in game.players:
            for dev in deviations(full, [i for i, _ in full if i.player == p]):
                if base[p.label] < tree_eu(ctx, game, Rows(dev))[p.label] - 1e-6:
                    raise RuntimeError("the real solver does not meet its contract")


class solver_in_place:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        gambit_stub.SOLVE = self.s
        if not self.s.ctx.symbolic:
            import pygambit
            for n in SOLVERS:
                if not hasattr(pygambit.nash, "_real_" + n):
                    setattr(pygambit.nash, "_real_" + n, getattr(pygambit.nash, n + "_solve"))
                setattr(pygambit.nash, n + "_solve", lambda game, *a, n=n, **k: self.s(game, n, k))

    def __exit__(self, *a):
        gambit_stub.SOLVE = None
        if not self.s.ctx.symbolic:
            import pygambit
            for n in SOLVERS:
                setattr(pygambit.nash, n + "_solve", getattr(pygambit.nash, "_real_" + n))


def rules(ctx, g, spec, cpds):
    """install a profile in a copy of the diagram and read the rules back"""
    h = g.copy()
    h.add_cpds(*cpds)
    return h, {c.variable: rule_of(h.get_cpds(c.variable), spec, c.variable) for c in cpds}


def prescribed(ctx, spec, decs, rule, rows):
    """the rules are those of the profile: each row at the information set of its observation"""
    for d in decs:
        n = spec.by[d]
        mine = [(i, r) for i, r in rows if i.label == d]
        ctx.check("an information set per observation", len(mine) == len(rule[d]), lambda: [d, len(mine), len(rule[d])])
        for c, ps in rule[d].items():
            hit = [r for i, r in mine if observed(spec, d, i) == c]
            ctx.check("one information set for an observation", len(hit) == 1, lambda: [d, c])
            if len(hit) == 1:
                none = not any(hit[0]) if not ctx.symbolic else all(not hasattr(x, "n") and x == 0 for x in hit[0])
                for p, x in zip(ps, hit[0]):
                    ctx.eq("prescribed probability", p, Fraction(1, len(n.dom)) if none else x)


def observed(spec, d, infoset):
    """the observation of an information set, read off the path to its first member (None if it cannot be read)"""
    node = next(iter(infoset.members))
    state = {}
    while node.parent is not None:
        up = node.parent
        k = [i for i, c in enumerate(up.children) if c == node][0]
        state.setdefault(up.infoset.label if not up.player.is_chance else "", []).append(up.infoset.actions[k].label)
        node = up
    out = []
    for p in spec.by[d].parents:
        labs = state.get(p) or [x for x in state.get("", []) if x in map(str, spec.by[p].dom)]
        hit = [o for o in spec.by[p].dom if str(o) in labs]
        if len(hit) != 1:
            return None
        out.append(hit[0])
    return tuple(out)


def pure_rules(spec, decs):
    """every pure rule for a set of decisions"""
    cells = [(d, c) for d in decs for c in spec.by[d].table]
    for pick in itertools.product(*[range(len(spec.by[d].dom)) for d, _ in cells]):
        pol = {d: {} for d in decs}
        for (d, c), k in zip(cells, pick):
            pol[d][c] = [Fraction(int(i == k)) for i in range(len(spec.by[d].dom))]
        yield pol


def no_gain(ctx, spec, decs, policy, label):
    """no agent can do better by changing its rules for the given decisions"""
    for a in sorted({spec.by[d].agent for d in decs}, key=str):
        mine = [d for d in decs if spec.by[d].agent == a]
        base = spec.eu(a, policy=policy)
        ctx.geq_all(label, [(base, spec.eu(a, policy={**policy, **dev})) for dev in pure_rules(spec, mine)], slack=Fraction(1, 10 ** 9))


def body(ctx, cfg):
    import pycid
    mk, subs, comps = GAMES[cfg["game"]]
    spec = Spec(ctx, mk(cfg["u"]))
    g = spec.build("MACID")
    decs = [n.name for n in spec.nodes if n.role == "decision"]
    s = Solver(ctx, cfg["k"], cfg.get("gain", cfg["kind"] == "spe"), how=cfg.get("rows", "pos"))
    kind = cfg["kind"]
    with solver_in_place(s), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "solvers":
            return solvers(ctx, cfg, g, spec, decs, s)
        if kind == "unreached":
            s.row = lambda no, j, d, path, n: [Fraction(int(i == 0)) for i in range(n)] if d != "C" else \
                [Fraction(0)] * n if path.startswith("1") else dist(ctx, f"{d} {path}", n, "sym")
            if cfg["game"] == "seq":
                s.row = lambda no, j, d, path, n: [Fraction(0)] * n if d == "B" and path.startswith("1") else dist(ctx, f"{d} {path}", n, "sym")
            s.gain = False
            ctx.tag("unreached")
        if kind in ("ne", "unreached"):
            res = g.get_ne()
            sub = decs
        elif kind == "sub":
            sub = cfg["sub"]
            policy = {}
            for d in decs:
                if d not in sub:
                    n = spec.by[d]
                    policy[d] = {c: dist(ctx, f"given {d}|{c}", len(n.dom), cfg["pol"]) for c in n.table}
                    if cfg["pol"] != "open":
                        from props.p22 import give
                        give(g, n, policy[d], (lambda x: x) if ctx.symbolic else float)
                        n.table = policy[d]
            res = g.get_ne_in_sg(sub if ctx.choice("as", ["list", "set"]) == "list" else set(sub))
        if kind != "spe":
            ctx.check("one game is solved", len(s.calls) == 1)
            name, labels, profiles, players = s.calls[0]
            ctx.check("the decisions of the game", set(labels) == set(sub), lambda: [labels, sub])
            ctx.check("the players of the game", sorted(players) == sorted({str(spec.by[d].agent) for d in sub}), lambda: players)
            ctx.check("every equilibrium is returned", len(res) == len(profiles))
            for ne, rows in zip(res, profiles):
                ctx.check("a rule per decision", sorted(c.variable for c in ne) == sorted(sub), lambda: [c.variable for c in ne])
                h, rule = rules(ctx, g, spec, ne)
                prescribed(ctx, spec, sub, rule, rows)
                ctx.tag("prescribed")
                if s.gain:
                    no_gain(ctx, spec, sub, rule, "no agent gains by deviating")
                    ctx.tag("no gain")
                ctx.out("rules", [[d, list(map(list, rule[d].values()))] for d in sorted(rule)])
            return
        res = g.get_spe()
        n = 1
        for comp in comps:
            n *= cfg["k"]
        ctx.check("every combination", len(res) == n, lambda: [len(res), n])
        if cfg["k"] > 1:
            ctx.tag("several")
        sets = [frozenset(c[1]) for c in s.calls]
        ctx.check("the components are solved", set(sets) == {frozenset(c) for c in comps}, lambda: [list(map(sorted, sets)), comps])
        used = {}
        for spe in res:
            ctx.check("a rule per decision", sorted(c.variable for c in spe) == sorted(decs), lambda: [c.variable for c in spe])
            h, rule = rules(ctx, g, spec, spe)
            if s.gain:
                for sub in subs:  # rules outside the subgame fully mixed
                    no_gain(ctx, spec, sub, {d: rule[d] for d in sub}, "no agent gains in a subgame")
                ctx.tag("subgame perfect")
            origin = []
            for comp in comps:
                hits = [(no, j) for no, c in enumerate(s.calls) if frozenset(c[1]) == frozenset(comp) for j, rows in enumerate(c[2]) if identical(spec, rule, comp, rows)]
                origin.append(hits)
            ctx.check("made of the solver's answers", all(origin), lambda: origin)
            used.setdefault(str(origin), 0)
            used[str(origin)] += 1
        if ctx.symbolic:
            ctx.check("different combinations", all(v == 1 for v in used.values()), lambda: used)
        ctx.out("rules", sorted(str(len(spe)) for spe in res))


def identical(spec, rule, comp, rows):
    """do the rules coincide, as expressions, with the profile?"""
    for d in comp:
        for i, r in rows:
            if i.label == d:
                c = observed(spec, d, i)
                if c not in rule[d] or not all(same_number(p, x) for p, x in zip(rule[d][c], r)):
                    return False
    return True


def same_number(a, b):
    x = a - b
    return (not hasattr(x, "n") and abs(x) < 1e-9) or (hasattr(x, "n") and not x.n)


def solvers(ctx, cfg, g, spec, decs, s):
    f = {"get_ne": g.get_ne, "get_spe": g.get_spe, "get_ne_in_sg": lambda **k: g.get_ne_in_sg(decs, **k)}[cfg["f"]]
    name = ctx.choice("solver", [None, *SOLVERS, "nonsense"])
    two = len(GAMES[cfg["game"]][2][0]) == 2 if cfg["f"] == "get_spe" or cfg["game"] != "noisy" else True
    s.counts = {"simpdiv": 1, "enummixed": 1, "lp": 1, "lcp": 1, "ipa": 1, "gnm": 1, "enumpure": ctx.choice("pure equilibria", [1, 0])}
    args = {} if name is None else {"solver": name}
    if name == "nonsense":
        st, r = ctx.call(f, **args)
        ctx.check("unknown solvers are refused", st == "exc" and r == "ValueError")
        ctx.tag("refused solver")
        return
    res = f(**args)
    asked = [c[0] for c in s.calls]
    if name is None:
        want = ["enummixed"] if two else ["enumpure"] + ["simpdiv"] * (s.counts["enumpure"] == 0)
    elif name in ("enummixed", "lcp", "lp") and not two:
        want = ["enumpure"]
    else:
        want = [name]
    if cfg["f"] == "get_spe" and cfg["game"] == "noisy":
        want = want * 2 if not (want == ["enumpure"] and s.counts["enumpure"] == 0) else want
    ctx.check("the solver asked for", asked == want, lambda: [name, asked, want])
    if want[-1] == "simpdiv" and name is None:
        ctx.tag("fallback")
    if want[-1] == "enumpure" and s.counts["enumpure"] == 0:
        ctx.check("no equilibrium found", list(res) == [])
        ctx.tag("no equilibrium")
    else:
        ctx.check("its equilibria", len(res) == 1)
    ctx.out("asked", asked)
