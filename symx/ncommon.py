"""Parameterised diagrams for the numeric harnesses and the reference semantics they are compared with."""
import itertools
from fractions import Fraction

import numpy as np

from . import poly


class N:
    """One node: parents, domain, how its distribution is given to pycid."""

    def __init__(self, name, parents="", dom=(0, 1), style="func", how="sym", role="chance", agent=0):
        self.name, self.dom, self.style, self.how = name, list(dom), style, how
        self.parents = parents.split() if isinstance(parents, str) else list(parents)
        self.role, self.agent = role, agent
        self.table = {}


def D(name, parents="", dom=(0, 1), agent=0, **k):
    return N(name, parents, dom, role="decision", agent=agent, style="domain", how="open", **k)


def U(name, parents="", dom=(0, 1), agent=0, **k):
    return N(name, parents, dom, role="utility", agent=agent, **k)


def dist(ctx, label, k, how):
    """probabilities over k outcomes"""
    if how == "sym" or how == "pos":
        st = how == "pos"
        if k == 1:
            return [Fraction(1)]
        if k == 2:
            p = ctx.real(label, 0, 1, strict=st)
            return [1 - p, p]
        ps = [ctx.real(f"{label}.{i}", 0, 1, strict=st, typical=(0, Fraction(1, k))) for i in range(1, k)]
        ctx.assume(sum(ps) < 1 if st else sum(ps) <= 1)
        return [1 - sum(ps), *ps]
    if how == "num":  # fixed generic positive numbers
        h = sum((i + 3) * ord(c) for i, c in enumerate(label))
        w = [Fraction((h * (i + 2) + 5 * i) % 13 + 1) for i in range(k)]
        return [x / sum(w) for x in w]
    if how == "open":  # a decision without a policy is uniform
        return [Fraction(1, k)] * k
    if how == "det":
        h = sum((i + 1) * ord(c) for i, c in enumerate(label))
        return [Fraction(int(i == h % k)) for i in range(k)]
    raise ValueError(how)


class Spec:
    def __init__(self, ctx, nodes):
        self.nodes = nodes
        self.by = {n.name: n for n in nodes}
        self.ctx = ctx
        for n in nodes:
            for c in itertools.product(*[self.by[p].dom for p in n.parents]):
                if callable(n.how):
                    v = n.how(*c)
                    n.table[c] = [v.get(o, 0) for o in n.dom] if isinstance(v, dict) else \
                        [Fraction(int(o == v)) for o in n.dom]
                elif isinstance(n.how, dict):
                    n.table[c] = list(n.how[c])
                else:
                    n.table[c] = dist(ctx, n.name + "".join("|%s" % x for x in c), len(n.dom), n.how)

    # -- the real diagram ----------------------------------------------------------------------
    def edges(self):
        return [(p, n.name) for n in self.nodes for p in n.parents]

    def relationship(self, n, num=lambda x: x):
        from pgmpy.factors.discrete import TabularCPD
        if n.style == "domain":
            return list(n.dom)
        if n.style == "table":
            cols = list(itertools.product(*[self.by[p].dom for p in n.parents]))
            vals = [[num(n.table[c][i]) for c in cols] for i in range(len(n.dom))]
            return TabularCPD(n.name, len(n.dom), vals, evidence=list(n.parents),
                              evidence_card=[len(self.by[p].dom) for p in n.parents],
                              state_names={n.name: list(n.dom), **{p: list(self.by[p].dom) for p in n.parents}})
        if n.style == "dict":
            return {o: num(p) for o, p in zip(n.dom, n.table[()])}
        if n.style == "value":  # deterministic
            return func(n.parents, lambda *a: n.dom[[bool(x == 1) for x in n.table[a]].index(True)])
        first = next(iter(n.table.values()))  # for parent outcomes the harness itself introduces
        return func(n.parents, lambda *a: {o: num(p) for o, p in zip(n.dom, n.table.get(a, first))})

    def build(self, kind="CBN", order=None, edge_order=None, num=None):
        import pycid
        if num is None:
            num = (lambda x: x) if self.ctx.symbolic else float
        decs, utils = {}, {}
        for n in self.nodes:
            if n.role != "chance":
                (decs if n.role == "decision" else utils).setdefault(n.agent, []).append(n.name)
        if kind == "CBN":
            g = pycid.CausalBayesianNetwork()
        elif kind == "CID":
            g = pycid.CID(decisions=decs.get(0, []), utilities=utils.get(0, []))
        else:
            g = getattr(pycid, kind)(agent_decisions=decs, agent_utilities=utils)
        names = [n.name for n in self.nodes]
        g.add_nodes_from([names[i] for i in order] if order else names)
        es = self.edges()
        for i in edge_order or range(len(es)):
            g.add_edge(*es[i])
        for n in ([self.nodes[i] for i in order] if order else self.nodes):
            g.model[n.name] = self.relationship(n, num)
        return g

    # -- reference semantics ------------------------------------------------------------------
    def joint(self, do=None, policy=None, given=None):
        """Yield (assignment, weight) of the truncated factorisation.
        policy: decision -> {context: [probabilities]}; given: prunes assignments that differ."""
        do, policy, given = do or {}, policy or {}, given or {}
        out = [({}, Fraction(1))]
        for n in self.nodes:
            nxt = []
            for a, w in out:
                if n.name in do:
                    ps = [Fraction(int(o == do[n.name])) for o in n.dom]
                else:
                    ps = policy.get(n.name, n.table)[tuple(a[p] for p in n.parents)]
                for o, p in zip(n.dom, ps):
                    if not isinstance(p, poly.R) and p == 0:
                        continue
                    if n.name in given and given[n.name] != o:
                        continue
                    nxt.append(({**a, n.name: o}, w * p))
            out = nxt
        return out

    def weight(self, context, do=None, policy=None):
        return sum((w for _, w in self.joint(do, policy, context)), Fraction(0))

    def moment(self, f, context=None, do=None, policy=None):
        """sum over the joint of weight * f(assignment) restricted to the context (unnormalised)"""
        return sum((w * f(a) for a, w in self.joint(do, policy, context or {})), Fraction(0))

    def expect(self, f, context=None, do=None, policy=None):
        z = self.weight(context or {}, do, policy)
        return self.moment(f, context, do, policy) / z

    def eu(self, agent=0, context=None, do=None, policy=None, only=None):
        us = [n.name for n in self.nodes if n.role == "utility" and n.agent == agent and (only is None or n.name in only)]
        return self.expect(lambda a: sum((a[u] for u in us), 0), context, do, policy)


def func(parents, f):
    """A function whose keyword arguments are the parents."""
    if not parents:
        return lambda: f()
    if all(p.isidentifier() for p in parents):
        return eval(f"lambda {', '.join(parents)}: f({', '.join(parents)})", {"f": f})
    return lambda **pv: f(*[pv[p] for p in parents])


def key(x):
    if isinstance(x, poly.R):
        return ("R", x.n, x.d)
    if isinstance(x, (bool, int, float, Fraction, np.integer, np.floating)):
        return round(float(x), 10)
    return x


def cpd_snap(c):
    return (list(c.variables), {k: [key(x) for x in v] for k, v in c.state_names.items()
                                if k in c.variables}, [key(v) for v in c.values.flat])


def snap(g):
    """Everything observable about a diagram."""
    s = {"nodes": list(g.nodes), "edges": sorted(g.edges), "keys": sorted(g.model.keys()),
         "domain": {k: [key(x) for x in v] for k, v in g.model.domain.items()},
         "cpds": {c.variable: cpd_snap(c) for c in g.cpds},
         "kinds": {c.variable: type(c).__name__ for c in g.cpds},
         "rel": {k: id(v) for k, v in g.model.data.items()}}
    if hasattr(g, "agent_decisions"):
        s.update(ad={a: list(v) for a, v in g.agent_decisions.items()},
                 au={a: list(v) for a, v in g.agent_utilities.items()},
                 da=dict(g.decision_agent), ua=dict(g.utility_agent))
    return s


def same(a, b):
    return [k for k in a if a[k] != b.get(k)]


def value_of(factor, assignment):
    """factor entry by variable name and outcome"""
    idx = tuple(factor.name_to_no[v][assignment[v]] for v in factor.variables)
    return factor.values[idx]


def rule_of(cpd, spec, dec):
    """{context in spec order: [probabilities in domain order]} of a policy table"""
    n = spec.by[dec]
    out = {}
    for c in itertools.product(*[spec.by[p].dom for p in n.parents]):
        a = dict(zip(n.parents, c))
        row = []
        for o in n.dom:
            if o in cpd.name_to_no[dec]:
                row.append(value_of(cpd, {**a, dec: o}))
            else:
                row.append(Fraction(0))
        out[c] = row
    return out
