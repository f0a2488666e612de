"""P25 random and helper distributions are proper, in-domain and reproducible."""
import itertools
import random
from fractions import Fraction

import numpy as np

from symx import rng
from symx.ncommon import N, Spec, cpd_snap, value_of

ENGINE = "numeric"
BOUNDS = ("every integer seed from 0 to 2**32-1, every hash value of the context, every result of the underlying "
          "generator (any distribution vector, including the underflow to nan), every state of the global generator; "
          "domains of 1-3 outcomes (4 in the thorough tier) of several types, 0-2 parents, up to two draws in between; "
          "every probability for the Bernoulli and noisy-copy helpers")
WITNESS = ["underflow", "proper", "interleaved", "same seed", "failing generator", "bernoulli", "uniform", "noisy copy"]
ASSUMPTIONS = ["numpy.random is an arbitrary deterministic generator: its state after seeding depends on the seed alone "
               "and every draw on the state alone; dirichlet returns non-negative numbers that sum to one, or nan.",
               "hash() of a context is an arbitrary integer that depends on the context alone."]
OUTSIDE = "how numpy turns states into numbers; larger domains; negative seeds"

DOMS = {"default": None, "bits": [0, 1], "names": ["b", "a", "c"], "one": [7], "mixed": [2.5, -1, 0]}


def configs(tier):
    doms = dict(DOMS)
    if tier == "thorough":
        doms["four"] = [3, 1, 4, 0]
    for d in doms:
        for sm in (1.0, 0.001, 1000):
            yield {"name": f"{d} smoothness {sm}", "kind": "call", "dom": doms[d], "smooth": sm, "weight": 3}
        yield {"name": f"{d} in a model", "kind": "model", "dom": doms[d], "weight": 4}
    for d in ("default", "names"):
        yield {"name": f"{d} bad smoothness", "kind": "bad", "dom": doms[d]}
    yield {"name": "without a seed", "kind": "noseed", "dom": [0, 1, 2]}
    yield {"name": "bernoulli", "kind": "bernoulli"}
    for d in ([0], [0, 1], ["x", "y", "z"], [3, 1, 2, 0]):
        yield {"name": f"uniform {d}", "kind": "uniform", "dom": d}
    for pd, d in (([0, 1], [0, 1]), ([0, 1], None), ([0, 1, 2], [2, 1, 0]), (["u", "v"], ["u", "v", "w"]), ([1], [1, 2]),
                  ([0, 1, 2], None)):
        yield {"name": f"noisy copy of {pd} on {d}", "kind": "noisy", "pd": pd, "dom": d}


class Patched:
    """pycid.random.random_cpd with the stand-in generator and hash"""

    def __init__(self, ctx):
        import importlib
        rc = importlib.import_module("pycid.random.random_cpd")
        self.rc, self.ctx, self.hashes = rc, ctx, {}
        self.np = rng.world(ctx)

    def hash(self, x):
        k = repr(sorted(x)) if isinstance(x, (frozenset, set)) else repr(x)
        if k not in self.hashes:
            self.hashes[k] = self.ctx.int(f"hash {k}", -2 ** 61, 2 ** 61)
        return self.hashes[k]

    def __enter__(self):
        self.old = self.rc.np
        self.rc.np = rng.Numpy(self.old, self.np)
        self.rc.hash = self.hash
        return self.np

    def __exit__(self, *a):
        self.rc.np = self.old
        del self.rc.hash


class Real:
    """the real generator, for the concrete run"""

    def __enter__(self):
        np.random.seed(11)
        return np.random

    def __exit__(self, *a):
        pass


def state(r):
    """of numpy's generator and of Python's own"""
    s = r.get_state()
    own = hash(random.getstate())
    return (s.key, own) if isinstance(s, rng.State) else [own, *[x.tolist() if isinstance(x, np.ndarray) else x for x in s]]


def proper(ctx, dist, dom, quiet):
    ctx.check("a distribution over the domain", list(dist.keys()) == list(dom), lambda: list(dist))
    ps = list(dist.values())
    for p in ps:
        nan = isinstance(p, float) and p != p
        ctx.check("a number", not nan)
        if nan:
            return ps
        ctx.geq("non-negative", p, 0)
    ctx.eq("sums to one", sum(ps), 1)
    if not quiet:
        ctx.out("dist", ps)
    return ps


def body(ctx, cfg):
    from pycid import CausalBayesianNetwork, RandomCPD, bernoulli, discrete_uniform, noisy_copy
    kind = cfg["kind"]
    if kind in ("call", "model", "bad", "noseed"):
        seed = ctx.int("seed", 0, 2 ** 32 - 1)
        with Patched(ctx) as r:
            run(ctx, cfg, r, seed, False)
        if not ctx.symbolic and not isinstance(ctx, PIN):
            with Real() as r:
                run(ctx, cfg, r, seed, True)
        return
    g = CausalBayesianNetwork([("X", "Y")])
    if kind == "bernoulli":
        p = ctx.real("p", 0, 1)
        g.add_cpds(X=bernoulli(p), Y=lambda X: bernoulli(p if X else 1 - p))
        ctx.check("over 0 and 1", list(g.model.domain["X"]) == [0, 1])
        ctx.eq("probability of 1", value_of(g.get_cpds("X"), {"X": 1}), p)
        ctx.eq("probability of 0", value_of(g.get_cpds("X"), {"X": 0}), 1 - p)
        for x in (0, 1):
            ctx.eq("conditional Bernoulli", value_of(g.get_cpds("Y"), {"X": x, "Y": 1}), p if x else 1 - p)
        ctx.tag("bernoulli")
        ctx.out("table", list(g.get_cpds("X").values.flat))
    elif kind == "uniform":
        d = cfg["dom"]
        u = discrete_uniform(d)
        ctx.check("exactly the domain", sorted(map(repr, u)) == sorted(map(repr, d)))
        g.add_cpds(X=u, Y=lambda X: discrete_uniform(d))
        for o in d:
            ctx.eq("uniform", value_of(g.get_cpds("X"), {"X": o}), Fraction(1, len(d)))
            ctx.eq("uniform in every context", value_of(g.get_cpds("Y"), {"X": d[0], "Y": o}), Fraction(1, len(d)))
        ctx.tag("uniform")
    else:
        pd, d = cfg["pd"], cfg["dom"]
        p = ctx.real("p", 0, 1)
        g.add_cpds(X=discrete_uniform(pd), Y=lambda X: noisy_copy(X, p, d))
        dom = d or pd
        ctx.check("the stated domain", sorted(g.model.domain["Y"]) == sorted(dom))
        for x in pd:
            for y in dom:
                want = p if x == y else (1 - p) / (len(dom) - 1)
                ctx.eq("copies with the given probability", value_of(g.get_cpds("Y"), {"X": x, "Y": y}), want)
        g.add_cpds(Y=lambda X: noisy_copy(X, domain=d))
        for x in pd:
            ctx.eq("copies with probability 0.9 by default", value_of(g.get_cpds("Y"), {"X": x, "Y": x}), Fraction(9, 10))
        ctx.tag("noisy copy")
        ctx.out("table", list(g.get_cpds("Y").values.flat))


from symx.ctx import PinCtx as PIN  # noqa: E402


def run(ctx, cfg, r, seed, quiet):
    from pycid import CausalBayesianNetwork, RandomCPD
    dom = cfg["dom"]
    eff = dom or [0, 1]
    kind = cfg["kind"]
    if kind == "bad":
        bad = ctx.choice("smoothness", [0, -1.0])
        f = RandomCPD(dom, smoothness=bad, seed=seed)
        before = state(r)
        st, _ = ctx.call(f, X=0)
        ctx.check("an impossible smoothness is refused", st == "exc")
        ctx.check("the global state is untouched", state(r) == before)
        ctx.tag("failing generator")
        return
    if kind == "noseed":
        f = RandomCPD(dom)
        before = state(r)
        a = proper(ctx, f(X=1), eff, True)
        ctx.check("the global state is untouched", state(r) == before)
        r.randint(0, 5)
        b = proper(ctx, f(X=1), eff, True)
        for x, y in zip(a, b):
            ctx.eq("same answer again", x, y)
        return
    if kind == "model":
        g = CausalBayesianNetwork([("X", "Y"), ("Z", "Y")])
        before = state(r)
        g.add_cpds(X={0: 0.5, 1: 0.5}, Z={"u": 1}, Y=RandomCPD(dom, seed=seed))
        ctx.check("the domain is the requested one", sorted(g.model.domain["Y"], key=repr) == sorted(eff, key=repr))
        t = {}
        for x in (0, 1):
            for y in eff:
                p = t[x, y] = value_of(g.get_cpds("Y"), {"X": x, "Z": "u", "Y": y})
                ctx.geq("non-negative", p, 0)
            ctx.eq("sums to one", sum(t[x, y] for y in eff), 1)
        h = g.copy()
        h.add_cpds(Y=RandomCPD(dom, seed=seed))
        for (x, y), p in t.items():
            ctx.eq("the copy has the same distribution", value_of(h.get_cpds("Y"), {"X": x, "Z": "u", "Y": y}), p)
        ctx.check("the global state is untouched", state(r) == before)
        ctx.tag("proper")
        if not quiet:
            ctx.out("table", list(t.values()))
        return
    pv = ctx.choice("context", [{}, {"X": 0}, {"X": 1, "Y": "a"}])
    before = state(r)
    f = RandomCPD(dom, smoothness=cfg["smooth"], seed=seed)
    a = proper(ctx, f(**pv), eff, quiet)
    if not quiet and ctx.symbolic and any(n.startswith("underflow") for n in ctx.eng.vars):
        ctx.tag("underflow")
    ctx.tag("proper")
    ctx.check("the global state is untouched", state(r) == before)
    mid = ctx.choice("in between", ["nothing", "draw", "seed", "other context", "other generator"])
    if mid == "draw":
        r.randint(0, 3)
    elif mid == "seed":
        r.seed(3)
        r.randint(0, 3)
    elif mid == "other context":
        f(X=5)
    elif mid == "other generator":
        RandomCPD([0, 1], seed=17)(**pv)
    if mid != "nothing":
        ctx.tag("interleaved")
    before = state(r)
    b = proper(ctx, f(**dict(reversed(pv.items()))), eff, True)
    h = RandomCPD(dom, smoothness=cfg["smooth"], seed=seed)
    c = proper(ctx, h(**pv), eff, True)
    ctx.tag("same seed")
    for x, y, z in zip(a, b, c):
        ctx.eq("same answer again", x, y)
        ctx.eq("same answer from the same seed", x, z)
    ctx.check("the global state is untouched", state(r) == before)
