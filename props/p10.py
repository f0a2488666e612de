"""P10 reasoning patterns (Pfeffer and Gal 2007)."""
import itertools

from symx.gcommon import diagram, module, names
from symx.gspec import And, Implies, Ite, Not, Or, iff, known

BOUNDS = {"quick": "all DAGs on 5 nodes that contain a link from the deciding node's side (see configs()), 2-3 decisions "
                   "of one or two agents, every effective set; DAGs on 6 nodes with a forced skeleton",
          "thorough": "all DAGs on 5 nodes for more placements, DAGs on 6 nodes with smaller forced skeletons"}
WITNESS = [f"{m}:{v}" for m in ("direct", "manip", "signal", "reveal") for v in (True, False)] + ["largest"]
OUTSIDE = "larger diagrams"


class Spec:
    def __init__(self, G, decs, owner, utils):
        self.G, self.decs, self.owner, self.utils = G, decs, owner, utils
        self.memo = {}

    def us(self, d):
        return self.utils.get(self.owner[d], [])

    def effective(self, p, S, directed):
        """decisions on p other than the first node and forks are effective"""
        r = []
        for i, n in enumerate(p):
            if i and n in self.decs:
                fork = And(self.G.e(n, p[i - 1]), self.G.e(n, p[i + 1])) if not directed and i < len(p) - 1 else False
                r.append(Or(S[n], fork))
        return And(*r)

    def free(self, a, b):
        return self.G.dipaths(a, b, lambda p: not set(p[1:-1]) & set(self.decs))

    def dir_eff(self, a, b, S, avoid=()):
        return self.G.dipaths(a, b, lambda p: False if set(p) & set(avoid) else self.effective(p, S, True))

    def direct(self, d):
        return Or(*[self.free(d, u) for u in self.us(d)])

    def W(self, frm, d):
        """parents of d that do not descend from frm"""
        return {n: And(self.G.e(n, d), Not(self.G.reach(frm, n))) for n in self.G.nodes}

    def others(self, d, S):
        return [(b, And(S[b], self.free(d, b))) for b in self.decs if b != d]

    def manip(self, d, S):
        return Or(*[And(ok, self.dir_eff(b, u, S), self.dir_eff(d, ub, S, (b,)))
                    for b, ok in self.others(d, S) for u in self.us(d) for ub in self.us(b)])

    def signal(self, d, S):
        G = self.G
        r = []
        for b, ok in self.others(d, S):
            Z = self.W(d, b)
            Z[b] = True
            for u in self.us(d):
                base = And(ok, self.dir_eff(b, u, S))
                if known(base) is False:
                    continue
                for ub in self.us(b):
                    for p in G.seqs(d, ub):
                        if len(p) < 3:
                            continue
                        back = And(G.e(p[1], d), G.is_path(p), G.active(p, Z), self.effective(p, S, False))
                        if known(back) is False:
                            continue
                        earlier = False
                        for i in range(1, len(p) - 1):
                            fork = And(G.e(p[i], p[i - 1]), G.e(p[i], p[i + 1]))
                            key = And(fork, Not(earlier))
                            earlier = Or(earlier, fork)
                            if known(key) is False:
                                continue
                            r.append(And(base, back, key, self.key_ok(p[i], u, d, S)))
        return Or(*r)

    def key_ok(self, c, u, d, S):
        k = (c, u, d)
        if k not in self.memo:
            G = self.G
            Z = self.W(c, d)
            Z[d] = True
            self.memo[k] = Or(*[And(G.is_path(p), G.active(p, Z), self.effective(p, S, False))
                                for p in G.seqs(c, u)])
        return self.memo[k]

    def reveal(self, d, S):
        G = self.G
        r = []
        for b, ok in self.others(d, S):
            Z = self.W(d, b)
            Z[b] = True
            for u in self.us(d):
                base = And(ok, self.dir_eff(b, u, S))
                if known(base) is False:
                    continue
                for ub in self.us(b):
                    for p in G.seqs(d, ub):
                        if len(p) < 3:
                            continue
                        r.append(And(base, G.e(d, p[1]), G.is_path(p), G.active(p, Z),
                                     Or(*[G.collider(p, i) for i in range(1, len(p) - 1)]),
                                     self.effective(p, S, False)))
        return Or(*r)


def configs(tier):
    """roles: one letter per node in (hidden) topological order: A/B decisions, a/b utilities, c chance."""
    k = 0
    for roles, forced in (("cABba", [(1, 2)]), ("cABab", [(2, 3)]), ("AcBba", [(2, 4)]), ("cAAca", [(1, 2)]),
                          ("AccAa", [(3, 4)]), ("ABbac", [(0, 1)]), ("BAAba", [(0, 1), (1, 2)]),
                          ("BABba", [(1, 2)]), ("AcBab", [(0, 1), (2, 3)]), ("ABcba", [(1, 4)])):
        for mode in ("manip", "signal", "reveal"):
            k += 1
            yield {"name": f"{mode} {roles}", "mode": mode, "roles": roles, "forced": forced, "perm": k % 3,
                   "weight": 3}
    yield {"name": "reveal 6", "mode": "reveal", "roles": "AccBba", "perm": 1, "weight": 9,
           "forced": [(0, 1), (2, 1), (1, 3), (3, 5)]}
    yield {"name": "signal 6", "mode": "signal", "roles": "cABcba", "perm": 2, "weight": 9,
           "forced": [(0, 1), (1, 2), (2, 5), (0, 4)]}
    yield {"name": "reveal 6 decision on the way", "mode": "reveal", "roles": "ABcBba", "perm": 0, "weight": 9,
           "forced": [(0, 1), (2, 1), (0, 3), (3, 5), (1, 3), (2, 5)]}
    yield {"name": "signal 6 observed on the way", "mode": "signal", "roles": "ccABab", "perm": 1, "weight": 9,
           "forced": [(0, 1), (2, 3), (0, 5), (3, 4)]}
    yield {"name": "signal utility above", "mode": "signal", "roles": "bcABa", "perm": 1, "weight": 4,
           "forced": [(2, 3), (3, 4)]}
    for roles in ("cABba", "BAAba", "cBAab", "ABBab", "AcBba"):
        yield {"name": f"largest {roles}", "mode": "largest", "roles": roles, "perm": k % 3, "weight": 4,
               "forced": [(1, 2)] if roles != "AcBba" else [(0, 2)]}
    if tier == "thorough":
        for roles in ("cABba", "cABab", "AcBba", "cAAca", "AccAa", "BAAba", "BABba", "AcBab"):
            for mode in ("manip", "signal", "reveal", "largest"):
                k += 1
                yield {"name": f"{mode} {roles} all", "mode": mode, "roles": roles, "perm": k % 3, "weight": 5,
                       "forced": []}
        for roles, forced in (("AccBba", [(0, 1), (3, 5)]), ("cABcba", [(1, 2), (2, 5)]), ("cAcBba", [(1, 3), (3, 5)]),
                              ("ABcBba", [(0, 3), (3, 5)]), ("cBABba", [(2, 3), (3, 5)])):
            for mode in ("manip", "signal", "reveal", "largest"):
                k += 1
                yield {"name": f"{mode} {roles}", "mode": mode, "roles": roles, "perm": k % 3, "weight": 12,
                       "forced": forced}


def body(ctx, cfg):
    m = module("pycid.analyze.reasoning_patterns")
    roles = cfg["roles"]
    topo = names(len(roles), cfg["perm"])
    decs, utils = {"B": [], "A": []}, {"A": [], "B": []}
    for n, r in zip(topo, roles):
        if r in "AB":
            decs[r].append(n)
        elif r in "ab":
            utils[r.upper()].append(n)
    owner = {d: a for a, l in decs.items() for d in l}
    g, G = diagram(ctx, topo, decs, utils, forced=[(topo[i], topo[j]) for i, j in cfg["forced"]],
                   order=topo[::-1] if cfg["perm"] == 2 else topo)
    ds = list(owner)
    mode = cfg["mode"]
    if mode == "largest":
        return largest(ctx, m, g, G, ds, owner, utils)
    S = {d: ctx.bool(f"eff:{d}") for d in ds}
    eff = {d for d in ds if S[d]}
    S = {d: d in eff for d in ds}
    f = {"manip": m.manipulation, "signal": m.signaling, "reveal": m.revealing_or_denying}[mode]
    for d in ds:
        st, r = ctx.call(f, g, d, set(eff))
        ctx.out("r", (st, bool(r) if st == "ok" else r))
        ctx.check("no error", st == "ok")
        ctx.tag(f"{mode}:{bool(r)}")
        spec = Spec(G.pinned(), ds, owner, utils)
        ctx.check(f"{mode} of {d}", iff(bool(r), getattr(spec, mode)(d, S)))
        if mode == "manip":
            st, r = ctx.call(m.direct_effect, g, d)
            ctx.check("no error", st == "ok")
            ctx.tag(f"direct:{bool(r)}")
            ctx.check(f"direct effect of {d}", iff(bool(r), spec.direct(d)))
    ctx.check("unknown effective decision refused", ctx.call(f, g, ds[0], {"nowhere"})[0] == "exc")


def largest(ctx, m, g, G, ds, owner, utils):
    st, r = ctx.call(m.get_reasoning_patterns, g)
    ctx.check("no error", st == "ok")
    ctx.out("patterns", {k: sorted(v) for k, v in r.items()} if st == "ok" else r)
    ctx.tag("largest")
    got = [d for v in r.values() for d in v]
    ctx.check("each decision under at most one pattern", len(set(got)) == len(got) and set(got) <= set(ds))

    def pat(S, d):
        sp = Spec(G.pinned(), ds, owner, utils)
        return {"dir_effect": sp.direct(d), "manip": sp.manip(d, S), "sig": sp.signal(d, S),
                "rev_den": sp.reveal(d, S)}

    R = {d: d in got for d in ds}
    for d in got:
        name = [k for k, v in r.items() if d in v][0]
        ctx.check(f"{d} satisfies {name}", pat(R, d)[name])
    for k in range(1, len(ds) + 1):
        for sub in itertools.combinations(ds, k):
            if set(sub) <= set(got):
                continue
            S = {d: d in sub for d in ds}
            ctx.check(f"{sub} is not self-supporting", Not(And(*[Or(*pat(S, d).values()) for d in sub])))
