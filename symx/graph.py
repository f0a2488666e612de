"""Symbolic edges inside the real networkx / pgmpy graph classes.

Every pgmpy DAG (hence every pycid diagram) stores its edges as Boolean terms: `_E[(u, v)]` is True or a
term.  The adjacency mappings that networkx reads are views of `_E` that fork when an undecided edge is
looked at, so every networkx / pgmpy / pycid function runs unchanged.  When MERGE is on, a few
dependency functions (reachability, ancestors, active trails, cycle test, topological sort, copying a
whole edge view) answer with one merged formula instead of forking; each such stand-in follows the
documented contract of the function it replaces and is validated against the real one on every run."""
import builtins
from collections.abc import MutableMapping

import networkx as nx
from networkx.classes.reportviews import OutEdgeView
from pgmpy.base import DAG
from pgmpy.models import BayesianNetwork

from . import terms
from .terms import And, Not, Or, T

MERGE = True


def truth(t):
    return bool(t)


class Adj(MutableMapping):
    """Neighbours of one node (successors or predecessors)."""

    __slots__ = ("g", "n", "succ", "attrs", "__weakref__")

    def __init__(self, g, n, succ):
        self.g, self.n, self.succ, self.attrs = g, n, succ, {}

    def key(self, v):
        return (self.n, v) if self.succ else (v, self.n)

    def term(self, v):
        return self.g._E.get(self.key(v), False)

    def __contains__(self, v):
        return v in self.attrs and truth(self.term(v))

    def __getitem__(self, v):
        if v in self:
            return self.attrs[v]
        raise KeyError(v)

    def __setitem__(self, v, data):
        self.attrs[v] = data
        self.g._set_edge(self.key(v), True)

    def __delitem__(self, v):
        if v not in self.attrs:
            raise KeyError(v)
        k = self.key(v)
        if k not in self.g._E:  # other direction already deleted
            del self.attrs[v]
            return
        if not truth(self.g._E[k]):
            raise KeyError(v)
        del self.attrs[v]
        self.g._del_edge(k)

    def __iter__(self):
        size = len(self.attrs)
        for v in list(self.attrs):
            if len(self.attrs) != size:
                raise RuntimeError("dictionary changed size during iteration")
            if truth(self.term(v)):
                yield v

    def __len__(self):
        return sum(1 for v in self.attrs if truth(self.term(v)))

    def copy(self):
        return {v: d for v, d in self.items()}

    def clear(self):
        for v in list(self.attrs):
            if v in self:
                del self[v]
            else:
                del self.attrs[v]


class NodeDict(dict):
    """Node-keyed dict of a graph; settles nodes whose existence still depends on symbolic edges."""

    def bind(self, g, kind):
        self.g, self.kind = g, kind
        return self

    def _s(self):
        if self.g._pending:
            self.g._settle()

    def __contains__(self, k):
        self._s()
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        self._s()
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self._s()
        return dict.get(self, k, d)

    def __iter__(self):
        self._s()
        return dict.__iter__(self)

    def __len__(self):
        self._s()
        return dict.__len__(self)

    def keys(self):
        self._s()
        return dict.keys(self)

    def values(self):
        self._s()
        return dict.values(self)

    def items(self):
        self._s()
        return dict.items(self)

    def __setitem__(self, k, v):
        if self.kind != "node" and not isinstance(v, Adj):
            new = Adj(self.g, k, self.kind == "succ")
            for nbr, d in dict(v).items():
                new[nbr] = d
            v = new
        self.g._bump()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self.g._bump()
        dict.__delitem__(self, k)

    def clear(self):
        self.g._E.clear()
        self.g._pending.clear()
        self.g._bump()
        dict.clear(self)

    def __deepcopy__(self, memo):
        raise terms_unsupported("deepcopy of a symbolic graph")


def terms_unsupported(what):
    from .engine import Inconclusive

    return Inconclusive("unsupported on symbolic graphs: " + what)


# ---------------------------------------------------------------------------------------------
# symbolic sets

class SymSet:
    """A set whose elements are present under conditions.  Iterating it decides every membership."""

    def __init__(self, items=()):
        self.m = {}
        for k, t in items:
            if t is not False:
                self.m[k] = Or(self.m[k], t) if k in self.m else t

    @staticmethod
    def of(x):
        return x if isinstance(x, SymSet) else SymSet((k, True) for k in x)

    def term(self, k):
        return self.m.get(k, False)

    def __contains__(self, k):
        return truth(self.term(k))

    def __iter__(self):
        for k in list(self.m):
            if truth(self.m[k]):
                yield k

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        return truth(Or(*self.m.values())) if self.m else False

    def copy(self):
        return SymSet(self.m.items())

    def union(self, *os):
        r = self
        for o in os:
            r = SymSet(list(r.m.items()) + list(SymSet.of(o).m.items()))
        return r.copy()

    def intersection(self, *os):
        r = self
        for o in os:
            o = SymSet.of(o)
            r = SymSet((k, And(t, o.term(k))) for k, t in r.m.items())
        return r.copy()

    def difference(self, *os):
        r = self
        for o in os:
            o = SymSet.of(o)
            r = SymSet((k, And(t, Not(o.term(k)))) for k, t in r.m.items())
        return r.copy()

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet.of(o).difference(self))

    def _subset(self, o):
        o = SymSet.of(o)
        return And(*[Or(Not(t), o.term(k)) for k, t in self.m.items()])

    def issubset(self, o):
        return truth(self._subset(o))

    def issuperset(self, o):
        return SymSet.of(o).issubset(self)

    def isdisjoint(self, o):
        o = SymSet.of(o)
        return truth(Not(Or(*[And(t, o.term(k)) for k, t in self.m.items()])))

    def __and__(self, o):
        return self.intersection(o) if _setlike(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return self.union(o) if _setlike(o) else NotImplemented

    __ror__ = __or__

    def __sub__(self, o):
        return self.difference(o) if _setlike(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet.of(o).difference(self) if _setlike(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if _setlike(o) else NotImplemented

    __rxor__ = __xor__

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and not self.issuperset(o)

    def __gt__(self, o):
        return self.issuperset(o) and not self.issubset(o)

    def __eq__(self, o):
        if not _setlike(o):
            return NotImplemented
        return self.issubset(o) and self.issuperset(o)

    __hash__ = None

    def add(self, k):
        self.m[k] = True

    def update(self, *os):
        self.m = self.union(*os).m

    def difference_update(self, *os):
        self.m = self.difference(*os).m

    def intersection_update(self, *os):
        self.m = self.intersection(*os).m

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def discard(self, k):
        self.m.pop(k, None)

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.discard(k)

    def pop(self):
        for k in list(self.m):
            if truth(self.m[k]):
                del self.m[k]
                return k
        raise KeyError("pop from an empty set")

    def clear(self):
        self.m = {}

    def __repr__(self):
        return "SymSet(%r)" % (list(self),)


def _setlike(o):
    return isinstance(o, (SymSet, builtins.set, frozenset)) or hasattr(o, "isdisjoint")


class PSet(builtins.set):
    """Concrete set that can be combined with symbolic sets without deciding unrelated memberships."""

    def _lift(name):
        base = getattr(builtins.set, name)
        sym = getattr(SymSet, name)

        def method(self, *os):
            if any(isinstance(o, SymSet) for o in os):
                return sym(SymSet.of(self), *os)
            r = base(self, *os)
            return PSet(r) if isinstance(r, builtins.set) and not isinstance(r, PSet) else r

        method.__name__ = name
        return method

    for _n in ("intersection", "union", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
        locals()[_n] = _lift(_n)
    del _n, _lift


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, SymSet))

    def __call__(cls, x=(), *rest):
        if isinstance(x, SymSet):
            return x.copy()
        return PSet(x, *rest)

    def __getattr__(cls, name):
        return getattr(PSet, name)


class SetShim(metaclass=_SetMeta):
    """Stands for the name `set` in pycid's modules."""


class SymList(list):
    """Result of get_parents / get_children: fixed candidates, presence decided on demand."""

    def __init__(self, adj):
        super().__init__()
        self._adj, self._snap = adj, [(v, adj.term(v)) for v in adj.attrs]
        self._done = False

    def _force(self):
        if not self._done:
            list.extend(self, [v for v, t in self._snap if truth(t)])
            self._done = True

    def __contains__(self, x):
        if self._done:
            return list.__contains__(self, x)
        for v, t in self._snap:
            if v == x:
                return truth(t)
        return False

    def __bool__(self):
        if self._done:
            return list.__len__(self) > 0
        return truth(Or(*[t for _, t in self._snap])) if self._snap else False


def _forcing(name):
    base = getattr(list, name)

    def method(self, *a, **k):
        self._force()
        for o in a:
            if isinstance(o, SymList):
                o._force()
        return base(self, *a, **k)

    method.__name__ = name
    return method


for _n in ("__iter__ __len__ __getitem__ __setitem__ __delitem__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __add__ "
           "__iadd__ __mul__ __rmul__ __imul__ __reversed__ __repr__ append extend insert remove pop clear index "
           "count sort reverse copy").split():
    setattr(SymList, _n, _forcing(_n))


def _radd(self, o):
    self._force()
    return list(o) + list(self) if isinstance(o, list) else NotImplemented


SymList.__radd__ = _radd


# ---------------------------------------------------------------------------------------------
# graph methods

def _bump(self):
    self._ver = self.__dict__.get("_ver", 0) + 1


def _set_edge(self, k, t):
    self._E[k] = t
    self._bump()


def _del_edge(self, k):
    self._E.pop(k, None)
    self._bump()


def _raw_nodes(g):
    return list(dict.keys(g._node)) + [n for n in g._pending]


def _settle(self):
    pend = self._pending
    while pend:
        n = next(iter(pend))
        del pend[n]
        inc = Or(*[t for (u, v), t in self._E.items() if n in (u, v)])
        if truth(inc):
            _ensure(self, n)


def _attach(g, n):
    """(Re)attach the adjacency records of symbolic edges at n."""
    for (u, v) in list(g._E):
        if n in (u, v) and dict.__contains__(g._node, u) and dict.__contains__(g._node, v):
            s, p = dict.__getitem__(g._succ, u), dict.__getitem__(g._pred, v)
            d = s.attrs.setdefault(v, {"weight": None})
            p.attrs.setdefault(u, d)


def _ensure(g, n):
    """Insert node n without looking at nodes whose existence is still undecided."""
    g._pending.pop(n, None)
    if not dict.__contains__(g._node, n):
        dict.__setitem__(g._node, n, {"weight": None})
        dict.__setitem__(g._succ, n, Adj(g, n, True))
        dict.__setitem__(g._pred, n, Adj(g, n, False))
        g._bump()
        _attach(g, n)


def is_symbolic(g):
    return any(isinstance(t, T) for t in getattr(g, "_E", {}).values())


def add_symbolic_edge(g, u, v, t):
    """Add the edge under condition t (the loop check of BayesianNetwork.add_edge included)."""
    if t is False:
        return
    if t is True and not is_symbolic(g):
        g.add_edge(u, v)
        return
    if u == v:
        if truth(t):
            raise ValueError("Self loops are not allowed.")
        return
    if _may_reach(g, v, u):
        if truth(And(t, _closure(g).get((v, u), False))):
            raise ValueError(f"Loops are not allowed. Adding the edge from ({u}->{v}) forms a loop.")
    for n in (u, v):
        if not dict.__contains__(g._node, n) and n not in g._pending:
            if t is True:
                _ensure(g, n)
            else:
                g._pending[n] = True
    old = g._E.get((u, v), False)
    g._set_edge((u, v), Or(old, t))
    if dict.__contains__(g._node, u) and dict.__contains__(g._node, v):
        _attach(g, u)


def _cand_order(g, extra=None):
    """Topological order of the candidate edges (those not known to be absent), or None."""
    key = ("order", g._ver, extra)
    c = g.__dict__.setdefault("_cache", {})
    if key in c:
        return c[key]
    es = [k for k, t in g._E.items() if t is not False]
    if extra:
        es = es + [extra]
    nodes = list(dict.fromkeys(_raw_nodes(g) + [x for e in es for x in e]))
    r = _kahn(nodes, es)
    c[key] = r
    return r


def _may_reach(g, a, b):
    """Could there be a directed path from a to b?  (edges not known to be absent)"""
    es = [k for k, t in g._E.items() if t is not False]
    if not any(x == a for x, _ in es) or not any(y == b for _, y in es):
        return False
    out = {}
    for x, y in es:
        out.setdefault(x, []).append(y)
    seen, todo = {a}, [a]
    while todo:
        for y in out.get(todo.pop(), ()):
            if y == b:
                return True
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return False


def _kahn(nodes, es):
    indeg = {n: 0 for n in nodes}
    out = {n: [] for n in nodes}
    for u, v in es:
        indeg[v] += 1
        out[u].append(v)
    ready = [n for n in nodes if not indeg[n]]
    order = []
    i = 0
    while i < len(ready):
        n = ready[i]
        i += 1
        order.append(n)
        for v in out[n]:
            indeg[v] -= 1
            if not indeg[v]:
                ready.append(v)
    return order if len(order) == len(nodes) else None


_rcache, _acache = {}, {}


def _closure(g):
    """Strict reachability: (u, v) -> term for a directed path of at least one edge."""
    c = g.__dict__.setdefault("_cache", {})
    key = ("closure", g._ver)
    if key in c:
        return c[key]
    for k in [k for k in c if k[1] != g._ver]:
        del c[k]
    order = _cand_order(g)
    E = {k: t for k, t in g._E.items() if t is not False}
    gk = frozenset((k, getattr(t, "id", -1)) for k, t in E.items())
    if gk in _rcache:
        R = c[key] = _rcache[gk]
        return R
    R = {}
    if order is not None:
        out = {}
        for (u, v), t in E.items():
            out.setdefault(u, []).append((v, t))
        for u in reversed(order):
            acc = {}
            for v, t in out.get(u, ()):
                acc.setdefault(v, []).append(t)
                for w in order:
                    if (v, w) in R:
                        acc.setdefault(w, []).append(And(t, R[v, w]))
            for w, ts in acc.items():
                R[u, w] = Or(*ts)
    else:
        nodes = list(dict.fromkeys(_raw_nodes(g) + [x for e in E for x in e]))
        R = dict(E)
        for k in nodes:
            for i in nodes:
                a = R.get((i, k), False)
                if a is False:
                    continue
                for j in nodes:
                    b = R.get((k, j), False)
                    if b is not False:
                        R[i, j] = Or(R.get((i, j), False), And(a, b))
    c[key] = R
    if len(_rcache) > 20000:
        _rcache.clear()
    _rcache[gk] = R
    return R


def _active(g, start, observed, latents):
    """Contract of DAG.active_trail_nodes: nodes not observed that an active trail joins to start."""
    nodes = _raw_nodes(g)
    Z = {n: False for n in nodes}
    if isinstance(observed, SymSet):
        Z.update(observed.m)
    else:
        for z in observed:
            Z[z] = True
    ak = (start, tuple(nodes), frozenset((n, getattr(t, "id", -1)) for n, t in Z.items() if t is not False),
          frozenset((k, getattr(t, "id", -1)) for k, t in g._E.items() if t is not False), tuple(latents))
    if ak in _acache:
        return SymSet(_acache[ak])
    R = _closure(g)
    anc = {n: Or(Z[n], *[And(R.get((n, m), False), Z[m]) for m in nodes if Z[m] is not False]) for n in nodes}
    E = {k: t for k, t in g._E.items() if t is not False}
    order = _cand_order(g)
    rounds = (len(nodes) // 2 + 2) if order is not None else 2 * len(nodes) + 2
    seq = order if order is not None else nodes
    par, chi = {n: [] for n in nodes}, {n: [] for n in nodes}
    for (u, v), t in E.items():
        par[v].append((u, t))
        chi[u].append((v, t))
    up = {n: n == start for n in nodes}      # reached from a child (or start)
    down = {n: False for n in nodes}         # reached from a parent
    for _ in range(rounds):
        before = tuple(getattr(x, "id", x) for d in (up, down) for x in d.values())
        # sweep towards parents (reverse order): up[p] from up[c] unobserved, or down[c] opened collider
        for n in reversed(seq):
            leave = Or(And(up[n], Not(Z[n])), And(down[n], anc[n]))
            if leave is not False:
                for p, t in par[n]:
                    up[p] = Or(up[p], And(leave, t))
        for n in seq:
            leave = And(Or(up[n], down[n]), Not(Z[n]))
            if leave is not False:
                for c, t in chi[n]:
                    down[c] = Or(down[c], And(leave, t))
        if before == tuple(getattr(x, "id", x) for d in (up, down) for x in d.values()):
            break
    if len(_acache) > 20000:
        _acache.clear()
    r = _acache[ak] = [(n, And(Or(up[n], down[n]), Not(Z[n]))) for n in nodes if n not in latents]
    return SymSet(r)


_orig = {}


def install():
    """Patch pgmpy's DAG / BayesianNetwork and networkx (once, before pycid is imported)."""
    if _orig:
        return
    _orig.update(
        add_node=DAG.add_node, add_edges_from=DAG.add_edges_from, dag_add_edge=DAG.add_edge,
        bn_add_edge=BayesianNetwork.add_edge, get_parents=DAG.get_parents, get_children=DAG.get_children,
        active=DAG.active_trail_nodes, anc_of=DAG._get_ancestors_of, dconn=DAG.is_dconnected,
        descendants=nx.descendants, ancestors=nx.ancestors, has_path=nx.has_path, find_cycle=nx.find_cycle,
        is_dag=nx.is_directed_acyclic_graph, topo=nx.topological_sort,
    )

    def outer_factory(self):
        d = self.__dict__
        if "_E" not in d:
            d["_E"], d["_pending"], d["_ver"], d["_cache"] = {}, {}, 0, {}
        kind = "pred" if d.get("_made_succ") else "succ"
        d["_made_succ"] = kind == "succ"
        return lambda: NodeDict().bind(self, kind)

    def node_factory(self):
        d = self.__dict__
        if "_E" not in d:
            d["_E"], d["_pending"], d["_ver"], d["_cache"] = {}, {}, 0, {}
        return lambda: NodeDict().bind(self, "node")

    DAG.adjlist_outer_dict_factory = property(outer_factory)
    DAG.node_dict_factory = property(node_factory)
    for name, f in dict(_bump=_bump, _set_edge=_set_edge, _del_edge=_del_edge, _settle=_settle).items():
        setattr(DAG, name, f)

    def merging(g):
        return MERGE and terms.ENGINE is not None and isinstance(g, DAG) and is_symbolic(g)

    def add_node(self, node, *a, **k):
        if self._pending and not isinstance(node, tuple):
            _ensure(self, node)
            return
        return _orig["add_node"](self, node, *a, **k)

    def dag_add_edge(self, u, v, weight=None):
        if merging(self) or self._pending:
            if u is None or v is None:
                raise ValueError("None cannot be a node")
            _ensure(self, u)
            _ensure(self, v)
            self._set_edge((u, v), True)
            _attach(self, u)
            return
        return _orig["dag_add_edge"](self, u, v, weight=weight)

    def bn_add_edge(self, u, v, **kw):
        if merging(self):
            if u == v:
                raise ValueError("Self loops are not allowed.")
            if _may_reach(self, v, u) and truth(_closure(self).get((v, u), False)):
                raise ValueError(f"Loops are not allowed. Adding the edge from ({u}->{v}) forms a loop.")
            return DAG.add_edge(self, u, v, **kw)
        return _orig["bn_add_edge"](self, u, v, **kw)

    def add_edges_from(self, ebunch, weights=None):
        g = getattr(ebunch, "_graph", None) if isinstance(ebunch, OutEdgeView) else None
        if g is not None and merging(g) and not weights and not (getattr(self, "model", None) or {}):
            for u in _raw_nodes(g):
                if not dict.__contains__(g._node, u):
                    continue
                for v in list(dict.__getitem__(g._succ, u).attrs):
                    add_symbolic_edge(self, u, v, g._E.get((u, v), False))
            return
        return _orig["add_edges_from"](self, ebunch, weights)

    def get_parents(self, node):
        if merging(self):
            if node not in self._pred:
                raise nx.NetworkXError(f"The node {node} is not in the digraph.")
            return SymList(self._pred[node])
        return _orig["get_parents"](self, node)

    def get_children(self, node):
        if merging(self):
            if node not in self._succ:
                raise nx.NetworkXError(f"The node {node} is not in the digraph.")
            return SymList(self._succ[node])
        return _orig["get_children"](self, node)

    def active_trail_nodes(self, variables, observed=None, include_latents=False):
        if merging(self):
            if observed:
                obs = observed if isinstance(observed, (list, tuple)) else [observed]
            else:
                obs = []
            obs = list(obs)
            for o in obs:
                if o not in self._node:
                    raise ValueError(f"Node {o} not in not in graph")
            vs = variables if isinstance(variables, (list, tuple)) else [variables]
            for v in vs:
                if v not in obs and v not in self._node:
                    raise nx.NetworkXError(f"The node {v} is not in the digraph.")
            return {v: _active(self, v, obs, () if include_latents else self.latents) for v in vs}
        return _orig["active"](self, variables, observed=observed, include_latents=include_latents)

    def _get_ancestors_of(self, nodes):
        if merging(self):
            ns = list(nodes) if isinstance(nodes, (list, tuple)) else [nodes]
            for n in ns:
                if n not in self._node:
                    raise ValueError(f"Node {n} not in not in graph")
            R = _closure(self)
            return SymSet((m, Or(m in ns, *[R.get((m, n), False) for n in ns])) for m in _raw_nodes(self))
        return _orig["anc_of"](self, nodes)

    DAG.add_node, DAG.add_edge, DAG.add_edges_from = add_node, dag_add_edge, add_edges_from
    BayesianNetwork.add_edge = bn_add_edge
    DAG.get_parents, DAG.get_children = get_parents, get_children
    DAG.active_trail_nodes, DAG._get_ancestors_of = active_trail_nodes, _get_ancestors_of

    def descendants(G, source):
        if merging(G):
            if source not in G._node:
                raise nx.NetworkXError(f"The node {source} is not in the digraph.")
            R = _closure(G)
            return SymSet((m, R.get((source, m), False)) for m in _raw_nodes(G) if m != source)
        return _orig["descendants"](G, source)

    def ancestors(G, source):
        if merging(G):
            if source not in G._node:
                raise nx.NetworkXError(f"The node {source} is not in the digraph.")
            R = _closure(G)
            return SymSet((m, R.get((m, source), False)) for m in _raw_nodes(G) if m != source)
        return _orig["ancestors"](G, source)

    def has_path(G, source, target):
        if merging(G):
            for n in (source, target):
                if n not in G._node:
                    raise nx.NodeNotFound(f"{n} is not in G")
            return truth(source == target or _closure(G).get((source, target), False))
        return _orig["has_path"](G, source, target)

    def cyclic(G):
        R = _closure(G)
        return Or(*[R.get((n, n), False) for n in _raw_nodes(G)])

    def find_cycle(G, *a, **k):
        if merging(G) and not a and not k:
            if not truth(cyclic(G)):
                raise nx.NetworkXNoCycle("No cycle found.")
        return _orig["find_cycle"](G, *a, **k)

    def is_directed_acyclic_graph(G):
        if merging(G):
            return not truth(cyclic(G))
        return _orig["is_dag"](G)

    def topological_sort(G):
        if not merging(G):
            yield from _orig["topo"](G)
            return
        G._settle()
        ev = terms.ENGINE.eval3
        es = [k for k, t in G._E.items() if ev(t) is not False]
        while True:
            order = _kahn(list(G._node), es)
            if order is not None:
                break
            # decide one undecided edge at a time until the remaining candidates are acyclic
            for k in es:
                if ev(G._E[k]) is None:
                    truth(G._E[k])
                    break
            else:
                raise nx.NetworkXUnfeasible("Graph contains a cycle or graph changed during iteration")
            es = [k for k in es if ev(G._E[k]) is not False]
        yield from order

    for name, f in dict(descendants=descendants, ancestors=ancestors, has_path=has_path, find_cycle=find_cycle,
                        is_directed_acyclic_graph=is_directed_acyclic_graph, topological_sort=topological_sort).items():
        f.__name__ = name
        setattr(nx, name, f)


def make_symbolic(g, edges):
    """Give an edgeless pycid diagram its symbolic edges; edges: (u, v) -> term, acyclic candidates."""
    for (u, v), t in edges.items():
        if t is True or (not isinstance(t, T) and t):
            g.add_edge(u, v)
    for (u, v), t in edges.items():
        if isinstance(t, T):
            s, p = dict.__getitem__(g._succ, u), dict.__getitem__(g._pred, v)
            d = s.attrs.setdefault(v, {"weight": None})
            p.attrs.setdefault(u, d)
            g._set_edge((u, v), t)
