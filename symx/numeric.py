"""Numeric engine: symbolic reals flowing through the real pycid / pgmpy code in numpy object arrays.

Encoded: pycid, pgmpy's TabularCPD / DiscreteFactor / BayesianNetwork, numpy's element-wise object arithmetic.
Stand-ins (checked against the real ones on pinned inputs in every run):
  * numpy's float-only helpers (allclose, isclose, isnan, float arrays) lifted to symbolic entries;
  * pgmpy BeliefPropagation.query: the normalised sum-product over the model's tables (0/0 is nan), with the
    order of the variables in the answer left open;
  * pygambit: a recording game tree (see gambit_stub) whose solver is supplied by the harness;
  * random / numpy.random: every draw is a choice of the harness."""
import inspect
import itertools
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import poly
from .poly import R, isnum
from .terms import And, Not, Or, T, Var

REAL_FLOAT = float


# ---- numpy / math helpers -------------------------------------------------------------------------
def _obj(a):
    if not (isinstance(a, np.ndarray) and a.dtype.kind == "f"):
        return a
    r = a.astype(object)
    if r.ndim:
        r[a == 0] = Fraction(0)  # so that sums that start at 0.0 stay exact
    return r


def _has_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def tol(x):
    return x if isinstance(x, (R, Fraction)) else Fraction(repr(REAL_FLOAT(x)))


def special(x):
    return isinstance(x, (REAL_FLOAT, np.floating)) and (math.isnan(x) or math.isinf(x))


def _close(a, b, rtol, atol):
    if special(a) or special(b):
        return bool(not isinstance(a, R) and not isinstance(b, R) and a == b)
    rtol, atol = tol(rtol), tol(atol)
    if not any(isinstance(t, R) for t in (a, b, rtol, atol)):
        return bool(np.isclose(REAL_FLOAT(a), REAL_FLOAT(b), rtol=REAL_FLOAT(rtol), atol=REAL_FLOAT(atol)))
    x = a - b
    within = lambda t: And(x <= t, x >= -t)
    if not isinstance(rtol, R) and rtol == 0:
        return within(atol)
    return Or(within(atol + rtol * b), within(atol - rtol * b))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        A, B = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape):
            out[i] = _close(A[i], B[i], rtol, atol)
        return out
    return _close(a, b, rtol, atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return And(*r.flat) if isinstance(r, np.ndarray) else r


def isnan(x):
    if isinstance(x, np.flatiter):
        x = np.asarray(x)
    if isinstance(x, (list, tuple)):
        x = _array(x)
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return np.isnan(x)
        return np.array([isinstance(i, (REAL_FLOAT, np.floating)) and math.isnan(i) for i in x.flat],
                        dtype=bool).reshape(x.shape)
    if isinstance(x, (R, Fraction)):
        return False
    return np.isnan(x)


def math_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not isinstance(a, R) and not isinstance(b, R):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if special(a) or special(b):
        return False
    x, r, t = a - b, tol(rel_tol), tol(abs_tol)
    within = lambda y: And(x <= y, x >= -y)
    return Or(within(t), *[within(r * y) for y in (a, -a, b, -b)])


def _array(*a, **k):
    dt = k.get("dtype")
    if dt in (float, np.float64):
        k = dict(k, dtype=None)
        return _obj(np.array(*a, **k)).astype(object)
    return _obj(np.array(*a, **k))


def _asarray(*a, **k):
    return _array(*a, **k) if k.get("dtype") in (float, np.float64) or not (a and isinstance(a[0], np.ndarray)) \
        else _obj(np.asarray(*a, **k))


def _wrap(f):
    return lambda *a, **k: _obj(f(*a, **k))


class NP:
    """numpy with float arrays turned into object arrays"""
    array, asarray = staticmethod(_array), staticmethod(_asarray)
    allclose, isclose, isnan = staticmethod(allclose), staticmethod(isclose), staticmethod(isnan)
    zeros, ones, full, empty, zeros_like, ones_like = map(
        lambda f: staticmethod(_wrap(f)), (np.zeros, np.ones, np.full, np.empty, np.zeros_like, np.ones_like))
    random = None

    @staticmethod
    def sum(a, axis=None, **k):
        r = np.sum(a, axis=axis, **k)
        if axis is not None and not isinstance(r, np.ndarray):
            z = np.empty((), dtype=object)  # like numpy's scalar, which still has array methods
            z[()] = r
            return z
        return r

    @staticmethod
    def isfinite(x):
        return ~NP.isinf(x) & ~isnan(x) if isinstance(x, np.ndarray) else not (NP.isinf(x) or isnan(x))

    @staticmethod
    def isinf(x):
        if isinstance(x, np.ndarray):
            return np.array([special(i) and math.isinf(i) for i in x.flat], dtype=bool).reshape(x.shape)
        return special(x) and math.isinf(x)

    def __getattr__(self, n):
        return getattr(np, n)


class MATH:
    isclose = staticmethod(math_isclose)

    @staticmethod
    def isnan(x):
        return False if isinstance(x, (R, Fraction)) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if isinstance(x, (R, Fraction)) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance(x, (R, Fraction)) else math.isfinite(x)

    @staticmethod
    def fsum(xs):
        return sum(xs)

    def __getattr__(self, n):
        return getattr(math, n)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (REAL_FLOAT, R))

    def __eq__(cls, o):
        return o is cls or o is REAL_FLOAT

    def __hash__(cls):
        return hash(REAL_FLOAT)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        return x if isinstance(x, (R, Fraction)) else REAL_FLOAT(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, R) and poly.is_int(x))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return poly.floor_int(x) if isinstance(x, R) else int(x, *a)


NPS, MATHS = NP(), MATH()


def no_source(obj):
    raise OSError("labels are not part of the model")


# ---- belief propagation -----------------------------------------------------------------------------
ENG = None


def _flag(name):
    from . import terms
    e = terms.ENGINE
    if e is None:
        return False
    t = Var(name)
    e.vars[name] = ("bool", terms.to_z3(t, poly.z3()))
    return bool(t)


class BeliefPropagation:
    """Normalised sum-product over the model's tables, after the constructor's real model check."""

    def __init__(self, model):
        model.check_model()
        self.model = model

    def query(self, variables, evidence=None, virtual_evidence=None, joint=True, show_progress=True):
        from pgmpy.factors.discrete import DiscreteFactor
        evidence = dict(evidence or {})
        variables = list(variables)
        if set(variables) & set(evidence):
            raise ValueError("Can't have the same variables in both `variables` and `evidence`.")
        m = self.model
        cp = {c.variable: c for c in m.cpds}
        for v in [*variables, *evidence]:
            if v not in m.nodes:
                raise ValueError(f"Node {v} not in graph")
        need, todo = set(), [*variables, *evidence]
        while todo:
            v = todo.pop()
            if v not in need:
                need.add(v)
                todo.extend(m.predecessors(v))
        order = []
        rest = [n for n in m.nodes if n in need]
        while rest:
            for n in rest:
                if not any(p in rest for p in m.predecessors(n)):
                    order.append(n)
                    rest.remove(n)
                    break
        fixed = {v: cp[v].name_to_no[v][s] for v, s in evidence.items()}
        if len(variables) >= 2 and _flag("answer order reversed"):
            variables = variables[::-1]
        # eliminate front to back: a table over the live variables
        last = {}
        for i, n in enumerate(order):
            for v in cp[n].variables:
                last[v] = i
        keep = set(variables)
        table = {(): Fraction(1)}
        scope = ()
        for i, n in enumerate(order):
            c = cp[n]
            vals = c.values
            new_scope = scope + (n,)
            pos = [new_scope.index(v) for v in c.variables]
            nxt = [k for k, v in enumerate(new_scope) if v in keep or last[v] > i]
            out = {}
            rng = [fixed[n]] if n in fixed else range(int(c.cardinality[0]))
            for key, w in table.items():
                for s in rng:
                    full = key + (s,)
                    p = vals[tuple(full[k] for k in pos)]
                    if isinstance(p, REAL_FLOAT) and not special(p):
                        p = poly.frac(p)
                    if not isinstance(p, R) and p == 0:
                        continue
                    x = w * p
                    k2 = tuple(full[k] for k in nxt)
                    out[k2] = out[k2] + x if k2 in out else x
            scope, table = tuple(new_scope[k] for k in nxt), out
        perm = [scope.index(v) for v in variables]
        card = [int(cp[v].cardinality[0]) for v in variables]
        vals = np.empty(card, dtype=object)
        vals[...] = Fraction(0)
        for key, w in table.items():
            vals[tuple(key[k] for k in perm)] = w
        total = sum(vals.flat)
        for i in np.ndindex(*card):
            vals[i] = _quot(vals[i], total)
        return DiscreteFactor(variables, card, vals.flatten(), state_names={v: cp[v].state_names[v] for v in variables})


def _quot(a, b):
    if isinstance(a, R) or isinstance(b, R):
        return poly.div(a, b)
    if b == 0:
        return float("nan")
    return a / b


# ---- random ---------------------------------------------------------------------------------------------
class Draws:
    """Every random draw becomes a choice of the harness context (bounded number of draws)."""

    def __init__(self):
        self.ctx, self.k, self.limit, self.script = None, 0, 0, ()

    def reset(self, ctx, limit, script=()):
        """at most `limit` draws; the first ones may be fixed"""
        self.ctx, self.k, self.limit, self.script = ctx, 0, limit, script

    def index(self, n):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        if n == 1:
            return 0
        if self.ctx is None:
            return 0
        if self.k >= self.limit:
            self.ctx.assume(False)
        self.k += 1
        if self.k <= len(self.script):
            return self.script[self.k - 1] % n
        return self.ctx.choice(f"draw{self.k}", range(n))


DRAWS = Draws()


class Random:
    """Stand-in for the random module."""

    @staticmethod
    def choice(seq):
        return seq[DRAWS.index(len(seq))]

    @staticmethod
    def randrange(a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        if not len(r):
            raise ValueError("empty range for randrange()")
        return r[DRAWS.index(len(r))]

    @staticmethod
    def randint(a, b):
        return Random.randrange(a, b + 1)

    @staticmethod
    def sample(pop, k):
        if not isinstance(pop, (list, tuple, range, str)):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        pop = list(pop)
        if not 0 <= k <= len(pop):
            raise ValueError("Sample larger than population or is negative")
        return [pop.pop(DRAWS.index(len(pop))) for _ in range(k)]

    @staticmethod
    def shuffle(x):
        x[:] = Random.sample(list(x), len(x))

    @staticmethod
    def choices(pop, weights=None, *, cum_weights=None, k=1):
        return [pop[DRAWS.index(len(pop))] for _ in range(k)]

    @staticmethod
    def seed(*a):
        pass


class NPRandom:
    shuffle, choice = staticmethod(Random.shuffle), staticmethod(Random.choice)

    @staticmethod
    def permutation(x):
        return Random.sample(list(range(x)) if isinstance(x, int) else list(x), x if isinstance(x, int) else len(x))

    @staticmethod
    def randint(a, b=None):
        return Random.randrange(a, b) if b is not None else Random.randrange(a)

    def __getattr__(self, n):
        return getattr(np.random, n)


RANDOM = Random()
NPS.random = NPRandom()


# ---- installation ----------------------------------------------------------------------------------------
def replacements():
    import random

    import pgmpy.inference.ExactInference as EI
    import pygambit
    from . import gambit_stub
    pairs = [(np, NPS), (math, MATHS), (math.isclose, math_isclose), (np.isclose, isclose), (np.allclose, allclose),
             (np.isnan, isnan), (np.array, _array), (np.zeros, NPS.zeros), (np.ones, NPS.ones), (math.isnan, MATHS.isnan),
             (math.fsum, MATHS.fsum), (EI.BeliefPropagation, BeliefPropagation), (inspect.getsourcelines, no_source),
             (random, RANDOM), (pygambit, gambit_stub.MODULE), (random.choice, Random.choice),
             (random.sample, Random.sample)]
    return {id(a): (a, b) for a, b in pairs}


class random_stand_ins:
    """Draws of the given project modules become choices of the harness, in the concrete run as well."""

    def __init__(self, *modules):
        self.modules, self.saved = modules, []

    def __enter__(self):
        import random
        from .rng import Numpy
        for m in self.modules:
            for k, v in list(m.__dict__.items()):
                r = RANDOM if v is random else Numpy(np, NPS.random) if v is np else \
                    getattr(RANDOM, v.__name__) if getattr(v, "__self__", None) is random._inst and hasattr(Random, v.__name__) else None
                if r is not None:
                    self.saved.append((m, k, v))
                    m.__dict__[k] = r

    def __exit__(self, *a):
        for m, k, v in self.saved:
            m.__dict__[k] = v


def patch(module, repl):
    for k, v in list(module.__dict__.items()):
        if k.startswith("__"):
            continue
        r = repl.get(id(v))
        if r is not None and r[0] is v:
            module.__dict__[k] = r[1]


def install():
    from . import hook
    import pgmpy.base.DAG as D
    import pgmpy.factors.base as FB
    import pgmpy.factors.discrete.CPD as CPD
    import pgmpy.factors.discrete.DiscreteFactor as DF
    import pgmpy.models.BayesianNetwork as BN
    repl = replacements()
    for m in (D, FB, CPD, DF, BN):
        patch(sys.modules[m.__module__] if isinstance(m, type) else m, repl)
    fnd = hook.Finder(None, lambda name: {"float": FloatShim, **({"int": IntShim} if ".random" in name else {})},
                      post=lambda m: patch(m, repl))
    sys.meta_path.insert(0, fnd)
    return fnd
