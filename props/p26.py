"""P26 samples are draws from the model's joint distribution."""
import itertools
from fractions import Fraction

import numpy as np

from symx.ncommon import D, N, Spec, U, same, snap

ENGINE = "numeric"
BOUNDS = {"quick": "the listed networks and diagrams on 1-5 nodes (connected or not, 1-3 outcomes of several types per node, up to three parents, "
                   "given by tables, functions, dictionaries or domains, decisions with and without policies), every table entry an arbitrary "
                   "probability: every sequence of generator results (up to 72); every seed from 0 to 2**32-1 and no seed",
          "thorough": "the same on up to 6 nodes (up to 162 sequences)"}
WITNESS = ["distribution", "open decision", "policy", "same seed", "no seed", "after an edit", "intervened"]
ASSUMPTIONS = ["pgmpy's sample_discrete and sample_discrete_maps draw an outcome number with the given weights (stand-ins; compared with the real ones "
               "on pinned inputs in every run).", "Seeding puts the generator into a state that depends on the seed alone.", "Exact real arithmetic."]
OUTSIDE = "how numpy turns states into numbers; larger networks; weights that do not sum to one"


def one(h):
    return [N("A", "", ["no", "yes"], how=h)], "CBN"


def chain(h):
    return [N("A", "", [1, 0], "table", h), N("B", "A", ["x", "y"], how=h), N("C", "B", [0, 1, 2], how=h)], "CBN"


def collider(h):
    return [N("A", "", [0, 1], "dict", h), N("B", "", [2, 3], how=h), N("C", "A B", [0, -1], "table", h)], "CBN"


def parts(h):
    return [N("A", "", [0, 1], "dict", h), N("B", "A", [0.5, 2.5], how=h), N("C", "", ["p", "q"], how=h), N("D", "C", [0, 1], "table", h)], "CBN"


def wide(h):
    return [N("A", "", [0, 1, 2], how=h), N("B", "A", [1, 0], how=h), N("C", "B A", ["u", "v", "w"], "table", h)], "MACIDBase"


def late(h):  # declared children first
    return [N("A", "", [0, 1], how=h), N("B", "A", [0, 1], how=h), N("C", "A B", [4, 5], how=h)], "CBN"


def single(h):  # a node with one outcome
    return [N("A", "", [7], how=h), N("B", "A", [0, 1], how=h), N("C", "B A", [0, 1], how=h)], "CBN"


def diagram(h):
    return [N("X", "", [0, 1], how=h), D("D", "X", ["l", "r"]), U("V", "D X", [-1, 2], how=h)], "CID"


def game(h):
    return [N("X", "", [0, 1], how=h), D("D", "X", [1, 0], agent="a"), D("E", "D", [2, 0, 1], agent="b"), U("V", "D E", [0, 1], agent="a", how=h),
            U("W", "E", [0, 1], agent="b", how="num")], "MACID"


def three(h):
    return [N("A", "", [0, 1], how=h), N("B", "", [0, 1], how=h), N("C", "", [0, 1], how=h), N("D", "C A B", ["s", "t"], "table", h)], "CBN"


def long(h):
    return [N("A", "", [0, 1], how=h), N("B", "A", [0, 1, 2], how=h), N("C", "B", [0, 1], "table", h), N("D", "C A", [0, 1], how=h), N("E", "D B", [0, 1], how=h),
            N("F", "E", [0, 1], how=h)], "CBN"


SHAPES = {f.__name__: f for f in (one, chain, collider, parts, wide, late, single, diagram, game, three)}


def configs(tier):
    for s in list(SHAPES) + (["long"] if tier == "thorough" else []):
        edits = ["-"] + (["policy"] if s in ("diagram", "game") else []) + (["intervene"] if s in ("chain", "diagram", "wide") else []) \
            + (["copy"] if s in ("late", "game") else []) + (["replace"] if s in ("chain", "collider") else [])
        for e in edits:
            yield {"name": f"{s}{'' if e == '-' else ' after ' + e}", "shape": s, "edit": e, "weight": {"game": 9, "long": 20}.get(s, 3)}


class Generator:
    """pgmpy's draws: result number i of the script, with the product of the weights"""

    def __init__(self, ctx):
        import pgmpy.sampling.Sampling as S
        import pgmpy.sampling.base as B
        self.ctx, self.S, self.B = ctx, S, B
        self.scripts, self.cur, self.k, self.sizes, self.p, self.seeds = {}, None, 0, [], Fraction(1), []

    def start(self, free, seeded):
        """results of the unseeded and the seeded generator"""
        self.scripts, self.cur, self.k, self.sizes, self.p, self.seeds = {"free": free, "seeded": seeded}, "free", 0, [], Fraction(1), []

    def draw(self, states, weights):
        states, weights = list(states), list(weights)
        script = self.scripts[self.cur]
        i = script[self.k] % len(states) if self.k < len(script) else 0
        self.k += 1
        self.sizes.append(len(states))
        self.p = self.p * weights[i]
        return np.array([states[i]])

    def seed(self, s=None):
        self.cur, self.k = "seeded" if s is not None else "free", 0
        self.seeds.append(s)

    def __enter__(self):
        S, B = self.S, self.B
        gen = self

        def maps(sampler, variable):
            c = sampler.model.get_cpds(variable)
            ev = c.variables[:0:-1]
            combos = list(itertools.product(*[range(sampler.cardinality[v]) for v in ev]))
            w = {}
            for i, sc in enumerate(combos):
                at = dict(zip(ev, sc))
                w[i] = [c.values[tuple([s] + [at[v] for v in c.variables[1:]])] for s in range(int(c.cardinality[0]))]
            return {sc: i for i, sc in enumerate(combos)}, w

        def with_maps(states, index, weights, size=1, seed=None):
            if seed is not None:
                gen.seed(seed)
            return np.array([gen.draw(states, weights[i])[0] for i in index])

        def discrete(states, weights, size=1, seed=None):
            if seed is not None:
                gen.seed(seed)
            w = np.asarray(weights)
            return np.array([gen.draw(states, w if w.ndim == 1 else w[i])[0] for i in range(size)])

        class Rand:
            seed = staticmethod(self.seed)

            def __getattr__(s, n):
                return getattr(np.random, n)

        class Num:
            random = Rand()

            def __getattr__(s, n):
                return getattr(np, n)
        self.saved = [(S, "sample_discrete", S.sample_discrete), (S, "sample_discrete_maps", S.sample_discrete_maps), (S, "np", S.np),
                      (B.BayesianModelInference, "pre_compute_reduce_maps", B.BayesianModelInference.pre_compute_reduce_maps)]
        for (o, k, _), v in zip(self.saved, (discrete, with_maps, Num(), maps)):
            setattr(o, k, v)
        return self

    def __exit__(self, *a):
        for o, k, v in self.saved:
            setattr(o, k, v)


def native(x):
    return x.item() if isinstance(x, np.generic) else x


def body(ctx, cfg):
    mk = SHAPES.get(cfg["shape"], long)
    nodes, cls = mk("sym")
    spec = Spec(ctx, nodes)
    g = spec.build(cls, order=range(len(nodes))[::-1] if cfg["shape"] == "late" else None)
    do = {}
    if cfg["edit"] == "policy":
        from pycid import StochasticFunctionCPD
        from symx.ncommon import func
        for n in nodes:
            if n.role == "decision":
                for c in n.table:
                    ps = [ctx.real(f"policy {n.name}{c}{i}", 0, 1) for i in range(1, len(n.dom))]
                    ctx.assume(sum(ps) <= 1)
                    n.table[c] = [1 - sum(ps), *ps]
                g.add_cpds(StochasticFunctionCPD(n.name, func(n.parents, lambda *a, n=n: dict(zip(n.dom, n.table[a]))), g, domain=list(n.dom)))
        ctx.tag("policy")
    elif cfg["edit"] == "intervene":
        n = nodes[1]
        do = {n.name: n.dom[-1]}
        g.intervene(do)
        ctx.tag("intervened")
    elif cfg["edit"] == "copy":
        g = g.copy()
    elif cfg["edit"] == "replace":
        n = nodes[0]
        p = ctx.real("new", 0, 1)
        d = dict(zip(n.dom, [p, 1 - p]))
        g.add_cpds(**{n.name: {o: x if ctx.symbolic else float(x) for o, x in d.items()}})
        n.dom = sorted(n.dom)
        n.table[()] = [d[o] for o in n.dom]
        ctx.tag("after an edit")
    if any(n.style == "domain" for n in nodes) and cfg["edit"] == "-":
        ctx.tag("open decision")
    before = snap(g)
    names = [n.name for n in nodes]
    seed = ctx.int("seed", 0, 2 ** 32 - 1)
    got, script, runs = {}, [], 0
    with Generator(ctx) as gen:
        while script is not None:
            runs += 1
            seeded = runs % 2 == 0
            gen.start([] if seeded else script, script if seeded else [])
            st, s = ctx.call(g.sample, seed) if seeded else ctx.call(g.sample)
            ctx.check("sampled", st == "ok", lambda: repr(ctx.last_exc))
            if st != "ok":
                return
            ctx.check("one outcome per node", sorted(s) == sorted(names))
            sizes = list(gen.sizes)
            a = {v: native(x) for v, x in s.items()}
            ctx.check("outcomes of the domains", all(a[n.name] in n.dom for n in nodes), lambda: repr(a))
            k = tuple(a[v] for v in names)
            got[k] = got.get(k, Fraction(0)) + gen.p
            if seeded:
                ctx.check("the generator is seeded", any(x is not None for x in gen.seeds))
                for x in gen.seeds:
                    if x is not None:
                        ctx.eq("with the given seed", x, seed)
                gen.start([1] * 9, script)
                st, s2 = ctx.call(g.sample, seed=seed)
                ctx.check("the same sample for the same seed", st == "ok" and {v: native(x) for v, x in s2.items()} == a)
                ctx.tag("same seed")
            else:
                ctx.check("a free generator", all(x is None for x in gen.seeds))
                ctx.tag("no seed")
            script = successor(script, sizes)
            ctx.assume(runs < 400)
    for vals in itertools.product(*[n.dom for n in nodes]):
        a = dict(zip(names, vals))
        ctx.eq("the chance of an assignment", got.get(vals, 0), spec.weight(a, do))
    ctx.out("runs", runs)
    ctx.tag("distribution")
    ctx.check("the model is unchanged", same(before, snap(g)) == [])
    if not ctx.symbolic:
        for sd in (None, 0, 7):
            st, s = ctx.call(g.sample, sd)
            ctx.check("real samples are possible", st == "ok" and spec.weight({v: native(x) for v, x in s.items()}, do) > 0)


def successor(script, sizes):
    s = [script[i] if i < len(script) else 0 for i in range(len(sizes))]
    while s and s[-1] + 1 >= sizes[len(s) - 1]:
        s.pop()
    return s[:-1] + [s[-1] + 1] if s else None
