"""Harness contexts: the same harness body runs symbolically and concretely (replay, validation)."""
from fractions import Fraction

from . import terms
from .terms import And, Not, Or, T, Var, iff


ROUNDING = Fraction(1, 10**8)
MARGINS = (Fraction(1, 20), Fraction(1, 500), Fraction(1, 100000))


def default_real(name, lo, hi):
    if lo is None or hi is None:
        return "3/8"
    k = sum(map(ord, name)) % 17 + 1
    return str(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(k, 19))


class Skip(BaseException):
    """concrete run: assumption violated"""


def norm(x):
    """Comparable form of an output."""
    if isinstance(x, T):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    if isinstance(x, dict):
        return sorted([[norm(k), norm(v)] for k, v in x.items()], key=repr)
    if isinstance(x, (set, frozenset)):
        return sorted([norm(i) for i in x], key=repr)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return float("%.9g" % x)
    if isinstance(x, Fraction):
        return float("%.9g" % float(x))
    if hasattr(x, "m") and hasattr(x, "term"):
        return sorted([norm(i) for i in x], key=repr)
    if hasattr(x, "const_float"):
        return float("%.9g" % x.const_float())
    return repr(type(x).__name__)


class Ctx:
    symbolic = False

    def choice(self, name, options):
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.bool(f"{name}={i}"):
                return o
        return options[-1]

    def call(self, fn, *a, **k):
        """Run code under test: ('ok', value) or ('exc', exception type name)."""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:  # path steering is BaseException
            self.last_exc = e
            return "exc", type(e).__name__


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, engine):
        from . import poly
        poly.ROUNDED[0] = False
        self.eng = engine
        self.outs = []
        self.tags = {}
        self.declared = set()

    def bool(self, name):
        t = Var(name)
        self.eng.vars[name] = ("bool", terms.to_z3(t, __import__("z3")))
        return t

    def choice(self, name, options):
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.eng.decide_free(self.bool(f"{name}={i}")):
                return o
        return options[-1]

    def real(self, name, lo=None, hi=None, strict=False, typical=None):
        """a real parameter; lo/hi bounds (inclusive unless strict); typical: range used when sampling"""
        from . import poly
        lo, hi = (None if b is None else poly.frac(b) for b in (lo, hi))
        x = poly.declare(name, lo, hi)
        if name not in self.declared:
            self.eng.vars[name] = ("real", poly.zvar(poly._vidx[name]), *(typical or (lo, hi)))
            self.declared.add(name)
            b = poly._bounds.pop(poly._vidx[name])  # the bounds themselves go to the solver
            for t in ([] if lo is None else [x > lo if strict else x >= lo]) + \
                    ([] if hi is None else [x < hi if strict else x <= hi]):
                self.eng.fact(t)
            poly._bounds[poly._vidx[name]] = b
        return x

    def int(self, name, lo=None, hi=None):
        """an integer parameter"""
        from . import poly
        poly.declare_int(name, lo, hi)
        return self.real(name, lo, hi)

    def assume(self, t):
        self.eng.assume(t)

    def eq(self, label, a, b):
        """a == b"""
        from . import poly
        if not poly.isnum(a) or not poly.isnum(b) or poly._special(a) or poly._special(b):
            return self.check(label, False)
        a = poly.frac(a) if not isinstance(a, poly.R) else a
        b = poly.frac(b) if not isinstance(b, poly.R) else b
        x = a - b
        if not isinstance(x, poly.R) and x == 0 and isinstance(a, poly.R) and self.eng.identity(label, a, b):
            return
        if poly.ROUNDED[0]:  # floats took part: equal up to rounding
            ok = And(x <= ROUNDING, x >= -ROUNDING)
        else:
            ok = x == 0
        self.eng.check(label, ok, strong=[Or(x >= m, x <= -m) for m in MARGINS])

    def geq(self, label, a, b, slack=0):
        """a >= b - slack"""
        from . import poly
        if not poly.isnum(a) or not poly.isnum(b) or poly._special(a) or poly._special(b):
            return self.check(label, False)
        a = poly.frac(a) if not isinstance(a, poly.R) else a
        b = poly.frac(b) if not isinstance(b, poly.R) else b
        x = a - b + slack + (ROUNDING if poly.ROUNDED[0] else 0)
        self.eng.check(label, x >= 0, strong=[x <= -m for m in MARGINS])

    def geq_all(self, label, pairs, slack=0):
        """a >= b - slack for every pair, as one assertion"""
        xs = [(a if hasattr(a, "n") else Fraction(a)) - b + slack for a, b in pairs]
        self.eng.check(label, And(*[x >= 0 for x in xs]), strong=[Or(*[x <= -m for x in xs]) for m in MARGINS])

    def check(self, label, cond, detail=None):
        self.eng.check(label, cond, detail)

    def out(self, label, value):
        self.outs.append((label, value))

    def tag(self, k):
        self.tags[k] = self.tags.get(k, 0) + 1


class ConcreteCtx(Ctx):
    def __init__(self, assignment):
        self.a = assignment
        self.outs = []
        self.fails = []
        self.used = {}

    def bool(self, name):
        v = bool(self.a.get(name, False))
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=False, typical=None):
        v = self.used[name] = self.a.get(name) or default_real(name, *(typical or (lo, hi)))
        return float(Fraction(v))

    def int(self, name, lo=None, hi=None):
        v = self.used[name] = self.a.get(name) or default_real(name, lo, hi)
        return int(Fraction(v) // 1)

    def eq(self, label, a, b):
        try:
            ok = abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))
        except TypeError:
            ok = False
        self.check(label, ok, lambda: [str(a), str(b)])

    def geq(self, label, a, b, slack=0):
        try:
            ok = a >= b - slack - 1e-7 * max(1, abs(a), abs(b))
        except TypeError:
            ok = False
        self.check(label, ok, lambda: [str(a), str(b)])

    def geq_all(self, label, pairs, slack=0):
        for a, b in pairs:
            self.geq(label, a, b, slack)

    def assume(self, t):
        if not t:
            raise Skip()

    def check(self, label, cond, detail=None):
        if not cond:
            self.fails.append((label, detail() if callable(detail) else detail))

    def out(self, label, value):
        self.outs.append((label, norm(value)))

    def tag(self, k):
        pass


class PinCtx(SymCtx):
    """The encoding run on concrete inputs: reals are exact constants, Booleans are fixed in the solver."""

    def __init__(self, engine, assignment):
        super().__init__(engine)
        self.a = assignment

    def real(self, name, lo=None, hi=None, strict=False, typical=None):
        return Fraction(self.a.get(name) or default_real(name, *(typical or (lo, hi))))

    def int(self, name, lo=None, hi=None):
        return int(Fraction(self.a.get(name) or default_real(name, lo, hi)) // 1)
