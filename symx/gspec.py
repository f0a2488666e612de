"""Independent graph specifications over Boolean terms (work on concrete booleans too)."""
import itertools

from .terms import And, Implies, Not, Or, iff, Ite, Xor  # noqa


_memo = {}


def _keep(k, v):
    if len(_memo) > 20000:
        _memo.clear()
    _memo[k] = v
    return v


class SG:
    """A directed graph given by nodes and edge terms."""

    def __init__(self, nodes, E):
        self.nodes = list(nodes)
        self.E = {k: t for k, t in E.items() if t is not False}
        self._R = None

    def e(self, u, v):
        return self.E.get((u, v), False)

    def without(self, cut):
        """cut: edge -> term saying the edge is removed"""
        return SG(self.nodes, {k: And(t, Not(cut.get(k, False))) for k, t in self.E.items()})

    def pinned(self):
        """Edges the current path already decides become constants."""
        return SG(self.nodes, {k: known(t) for k, t in self.E.items()})

    def plus_node(self, n, child):
        E = dict(self.E)
        E[n, child] = True
        return SG(self.nodes + [n], E)

    def plus_edge(self, u, v):
        E = dict(self.E)
        E[u, v] = True
        return SG(self.nodes, E)

    def key(self):
        return tuple(self.nodes), frozenset((k, getattr(t, "id", -1)) for k, t in self.E.items())

    def closure(self):
        if self._R is None:
            self._R = _memo.get(("closure", self.key()))
        if self._R is None:
            R = dict(self.E)
            for k in self.nodes:
                for i in self.nodes:
                    a = R.get((i, k), False)
                    if a is False:
                        continue
                    for j in self.nodes:
                        b = R.get((k, j), False)
                        if b is not False:
                            R[i, j] = Or(R.get((i, j), False), And(a, b))
            self._R = _keep(("closure", self.key()), R)
        return self._R

    def reach(self, u, v):
        """directed path with at least one edge"""
        return self.closure().get((u, v), False)

    def reach0(self, u, v):
        return True if u == v else self.reach(u, v)

    def anc_of_set(self, n, Z):
        """n is in Z or has a descendant in Z (Z: node -> term)"""
        return Or(Z.get(n, False), *[And(self.reach(n, m), Z.get(m, False)) for m in self.nodes if m != n])

    def dconn(self, x, y, Z):
        """d-connection by separation in the moralised ancestral graph."""
        if x == y:
            return Not(Z.get(x, False))
        mk = ("dconn", x, y, frozenset((n, getattr(t, "id", -1)) for n, t in Z.items() if t is not False), self.key())
        if mk in _memo:
            return _memo[mk]
        S = dict(Z)
        S[x] = True
        S[y] = True
        a = {n: self.anc_of_set(n, S) for n in self.nodes}
        m = {}
        for u, v in itertools.combinations(self.nodes, 2):
            t = Or(self.e(u, v), self.e(v, u), *[And(a[w], self.e(u, w), self.e(v, w)) for w in self.nodes
                                                 if w not in (u, v)])
            m[u, v] = m[v, u] = And(a[u], a[v], t)
        free = {n: Not(Z.get(n, False)) for n in self.nodes}
        c = {n: n == x for n in self.nodes}
        for _ in range(len(self.nodes) - 1):
            c = {v: Or(c[v], *[And(c[u], free[u], m[u, v]) for u in self.nodes if u != v]) for v in self.nodes}
        return _keep(mk, And(c[y], free[y], free[x]))

    # -- paths --------------------------------------------------------------
    def seqs(self, x, y, avoid=()):
        """all repetition-free node sequences from x to y"""
        if x == y:
            yield [x]
            return
        mid = [n for n in self.nodes if n not in (x, y) and n not in avoid]
        for k in range(len(mid) + 1):
            for p in itertools.permutations(mid, k):
                yield [x, *p, y]

    def adj(self, u, v):
        return Or(self.e(u, v), self.e(v, u))

    def is_dipath(self, p):
        return And(*[self.e(a, b) for a, b in zip(p, p[1:])])

    def is_path(self, p):
        return And(*[self.adj(a, b) for a, b in zip(p, p[1:])])

    def collider(self, p, i):
        return And(self.e(p[i - 1], p[i]), self.e(p[i + 1], p[i]))

    def active(self, p, Z):
        """p is known to be a path; blocking rules"""
        r = []
        for i in range(1, len(p) - 1):
            col = self.collider(p, i)
            r.append(Ite(col, self.anc_of_set(p[i], Z), Not(Z.get(p[i], False))))
        return And(*r)

    def dipaths(self, x, y, cond=lambda p: True):
        return Or(*[And(self.is_dipath(p), cond(p)) for p in self.seqs(x, y)])


def known(t):
    """The term, or its value if the current path fixes it."""
    from . import terms
    if isinstance(t, terms.T) and terms.ENGINE is not None:
        v = terms.ENGINE.eval3(t)
        return t if v is None else v
    return t


def requisite(G, d, x, utils):
    """Information link x -> d: x d-connected to a utility of d's owner below d given d and d's other parents."""
    Z = {n: G.e(n, d) for n in G.nodes if n != x}
    Z[d] = True
    return And(G.e(x, d), Or(*[And(G.reach(d, u), G.dconn(x, u, Z)) for u in utils]))


def reduction(G, decs, utils_of, rounds=None):
    """Remove all non-requisite information links, again and again.  Returns (graph, nothing left to remove)."""
    H = G.pinned()
    rounds = rounds or 2 * len(decs) + 1
    for r in range(rounds + 1):
        keep = {(x, d): known(requisite(H, d, x, utils_of(d))) for (x, d), t in H.E.items()
                if d in decs and t is not False}
        same = And(*[Or(k, Not(H.E[e])) for e, k in keep.items()])
        if known(same) is True or r == rounds:
            return H, same
        E = dict(H.E)
        E.update(keep)
        H = SG(H.nodes, E)
    return H, same


def relevant(G, d, v, utils):
    """v relevant to d: a fresh parent of v is d-connected to a utility of d's owner below d, given d and pa(d)."""
    H = G.plus_node("^", v)
    Z = {n: G.e(n, d) for n in G.nodes}
    Z[d] = True
    return Or(*[And(G.reach(d, u), H.dconn("^", u, Z)) for u in utils])


def recall(G, decs, utils_of):
    """Relevance among these decisions is acyclic."""
    rel = {(a, b): known(relevant(G, a, b, utils_of(a))) for a in decs for b in decs if a != b}
    R = SG(decs, rel)
    return Not(Or(*[R.reach(x, x) for x in decs]))


def zset(nodes):
    return {n: True for n in nodes}
