"""Symbolic reals: rational functions over named real variables, with comparisons as solver atoms.

The denominator of an R is positive on the current path.  A constant result is a plain Fraction.
Floats met on the way are read as the nearest fraction with a denominator up to 10**6 (rounding errors of
floating-point arithmetic are outside the model)."""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import terms
from .terms import And, Atom, Not, Or, T

_vars = []      # index -> name
_vidx = {}
_bounds = {}    # index -> (lo, hi) or None
_zv = {}


def z3():
    from . import engine
    return engine.z3


def declare(name, lo=None, hi=None):
    i = _vidx.get(name)
    if i is None:
        i = _vidx[name] = len(_vars)
        _vars.append(name)
    _bounds[i] = (lo, hi)
    return R(((((i,), Fraction(1)),)), ONE)


_ints = set()    # indices of integer-valued variables


def zvar(i):
    v = _zv.get(i)
    if v is None:
        v = _zv[i] = z3().ToReal(z3().Int(_vars[i])) if i in _ints else z3().Real(_vars[i])
    return v


def declare_int(name, lo=None, hi=None):
    x = declare(name, lo, hi)
    _ints.add(_vidx[name])
    return x


def is_int(x):
    """is the value known to be an integer?"""
    return x.d == ONE and all(c.denominator == 1 and all(i in _ints for i in m) for m, c in x.n)


def divmod_int(x, c):
    """(x // c, x % c) of an integer-valued x and a positive integer constant c, as fresh integers"""
    if isinstance(c, R) or int(c) != c or c <= 0 or not is_int(x):
        inconclusive("modulo of a symbolic real outside the encoded operations")
    c = int(c)
    q, r = declare_int(f"({show(x.n)})//{c}"), declare_int(f"({show(x.n)})%{c}", 0, c - 1)
    i = r.n[0][0][0]
    b = _bounds.pop(i)  # the bounds themselves go to the solver
    for t in (r >= 0, r < c, x == q * c + r):
        if isinstance(t, T):
            terms.ENGINE.fact(t)
    _bounds[i] = b
    return q, r


# polynomials: canonical tuples of (monomial, coefficient); monomial = sorted tuple of variable indices
ONE = (((), Fraction(1)),)
ZERO = ()


def const(c):
    return (((), Fraction(c)),) if c else ZERO


def _canon(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + (c if s == 1 else c * s)
    return _canon(d)


_mul = {}


def pmul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    if not a or not b:
        return ZERO
    k = (a, b)
    r = _mul.get(k)
    if r is None:
        d = {}
        for m1, c1 in a:
            for m2, c2 in b:
                m = tuple(sorted(m1 + m2)) if m1 and m2 else m1 or m2
                d[m] = d.get(m, 0) + c1 * c2
        r = _canon(d)
        if len(_mul) < 200000:
            _mul[k] = r
    return r


def pscale(a, c):
    return tuple((m, k * c) for m, k in a) if c else ZERO


def _mdiv(m, n):
    """monomial m / n or None"""
    out = list(m)
    for v in n:
        if v in out:
            out.remove(v)
        else:
            return None
    return tuple(out)


def _lead(p):
    return max(p, key=lambda t: (len(t[0]), t[0]))


def pdivexact(a, b):
    """a / b when b divides a exactly, else None"""
    if b == ONE:
        return a
    if len(b) == 1 and b[0][0] == ():
        return pscale(a, 1 / b[0][1])
    if not a:
        return ZERO
    lm, lc = _lead(b)
    q, r, n = {}, a, 0
    while r:
        rm, rc = _lead(r)
        m = _mdiv(rm, lm)
        n += 1
        if m is None or n > 60:
            return None
        c = rc / lc
        q[m] = c
        r = padd(r, pmul(((m, c),), b), -1)
    return _canon(q)


def pval(p):
    """constant value or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


_pz = {}


def pz3(p):
    r = _pz.get(p)
    if r is None:
        Z = z3()
        ts = []
        for m, c in p:
            fs = [zvar(i) for i in m]
            if c != 1 or not fs:
                fs.insert(0, Z.RealVal(str(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        r = _pz[p] = Z.Sum(ts) if len(ts) > 1 else (ts[0] if ts else Z.RealVal(0))
    return r


def degree(p):
    return max((len(m) for m, _ in p), default=0)


def prange(p):
    """interval of p from the declared variable bounds (monomial by monomial)"""
    lo = hi = Fraction(0)
    for m, c in p:
        a = b = Fraction(1)
        for i in m:
            l, h = _bounds.get(i, (None, None))
            if l is None or h is None or l < 0:
                if l is None or h is None or m.count(i) % 2 == 0:
                    return None
                xs = [a * l, a * h, b * l, b * h]
                a, b = min(xs), max(xs)
            else:
                xs = [a * l, a * h, b * l, b * h]
                a, b = min(xs), max(xs)
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return lo, hi


class Rel:
    """payload of an atom: p < 0 or p == 0"""
    __slots__ = ("p", "op")

    def __init__(self, p, op):
        self.p, self.op = p, op

    def __eq__(self, o):
        return isinstance(o, Rel) and self.op == o.op and self.p == o.p

    def __hash__(self):
        return hash((self.p, self.op))

    def z3(self):
        e = pz3(self.p)
        return e < 0 if self.op == "<" else e == 0

    def implied(self):
        """(term, value) consequences of this atom being true"""
        p = self.p
        n = pscale(p, -1)
        if self.op == "<":
            return [(_eqatom(p), False), (_ltatom(n), False)]
        return [(_ltatom(p), False), (_ltatom(n), False)]

    def nonlinear(self):
        return degree(self.p) > 1

    def __repr__(self):
        return f"{show(self.p)} {self.op} 0"


def show(p):
    return " + ".join(("%s" % c if c != 1 or not m else "") + "*".join(_vars[i] for i in m) for m, c in p) or "0"


def _ltatom(p):
    return Atom(Rel(pscale(p, 1 / abs(_lead(p)[1])), "<"))


def _eqatom(p):
    return Atom(Rel(pscale(p, 1 / _lead(p)[1]), "=="))


def lt0(p):
    v = pval(p)
    if v is not None:
        return v < 0
    b = prange(p)
    if b is not None:
        if b[0] >= 0:
            return False
        if b[1] < 0:
            return True
    return _ltatom(p)


def eq0(p):
    v = pval(p)
    if v is not None:
        return v == 0
    b = prange(p)
    if b is not None and (b[0] > 0 or b[1] < 0):
        return False
    return _eqatom(p)


_fl = {}


_inexact, ROUNDED = set(), [False]  # ROUNDED: a float whose exact value is unknown entered this path


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        r = _fl.get(x)
        if r is None:
            r = Fraction(x).limit_denominator(10 ** 6)
            if r == 0 and abs(x) > 1e-12:
                r = Fraction(x)
            elif abs(r - Fraction(x)) > 4e-15 * max(1, abs(x)):
                r = Fraction(x)  # not a rounded simple fraction
                _inexact.add(x)
            _fl[x] = r
        if x in _inexact:
            ROUNDED[0] = True
        return r
    raise TypeError(f"not a number: {type(x)}")


NUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def mk(n, d):
    """n/d, d positive on the path"""
    if not n:
        return Fraction(0)
    c = pval(d)
    if c is not None:
        if c != 1:
            n = pscale(n, 1 / c)
        v = pval(n)
        return R(n, ONE) if v is None else v
    q = pdivexact(n, d)
    if q is not None:
        v = pval(q)
        return R(q, ONE) if v is None else v
    # normalise the scale of the denominator
    s = abs(_lead(d)[1])
    if s != 1:
        n, d = pscale(n, 1 / s), pscale(d, 1 / s)
    return R(n, d)


def parts(x):
    if isinstance(x, R):
        return x.n, x.d
    return const(frac(x)), ONE


def _special(x):
    return isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x))


class Unsupported(Exception):
    pass


def inconclusive(msg):
    from . import engine
    raise engine.Inconclusive(msg)


def floor_int(x):
    """the integer part of a symbolic real that is not negative"""
    if is_int(x):
        return x
    if bool(x < 0):
        inconclusive("integer part of a negative symbolic real")
    r = declare_int(f"floor({x!r})")
    for t in (r >= 0, r <= x, r > x - 1):
        if isinstance(t, T):
            terms.ENGINE.fact(t)
    return r


class R:
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    def _lift(f):
        def g(self, o):
            if isinstance(o, R) or isinstance(o, NUM):
                return f(self, o)
            return NotImplemented
        return g

    @_lift
    def __add__(self, o):
        if _special(o):
            return o
        n, d = parts(o)
        if d == self.d:
            return mk(padd(self.n, n), d)
        if d == ONE:
            return mk(padd(self.n, pmul(n, self.d)), self.d)
        if self.d == ONE:
            return mk(padd(pmul(self.n, d), n), d)
        q = pdivexact(self.d, d)
        if q is not None:
            return mk(padd(self.n, pmul(n, q)), self.d)
        q = pdivexact(d, self.d)
        if q is not None:
            return mk(padd(pmul(self.n, q), n), d)
        return mk(padd(pmul(self.n, d), pmul(n, self.d)), pmul(self.d, d))

    __radd__ = __add__

    def __neg__(self):
        return R(pscale(self.n, -1), self.d)

    def __pos__(self):
        return self

    @_lift
    def __sub__(self, o):
        return self + (-o)

    @_lift
    def __rsub__(self, o):
        return (-self) + o

    @_lift
    def __mul__(self, o):
        if _special(o):
            if math.isnan(o):
                return o
            return o if bool(self > 0) else (-o if bool(self < 0) else float("nan"))
        n, d = parts(o)
        a, b = self.n, self.d
        if d != ONE:
            q = pdivexact(a, d)
            if q is not None:
                a, d = q, ONE
        if b != ONE:
            q = pdivexact(n, b)
            if q is not None:
                n, b = q, ONE
        return mk(pmul(a, n), pmul(b, d))

    __rmul__ = __mul__

    @_lift
    def __truediv__(self, o):
        if _special(o):
            return float("nan") if math.isnan(o) else Fraction(0)
        return div(self, o)

    @_lift
    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) and 0 <= k <= 8:
            r = Fraction(1)
            for _ in range(int(k)):
                r = self * r
            return r
        inconclusive("power of a symbolic real")

    def __floor__(self):
        return floor_int(self)

    __trunc__ = __floor__

    def __ceil__(self):
        f = floor_int(self)
        return f if bool(f == self) else f + 1

    def __mod__(self, c):
        return divmod_int(self, c)[1]

    def __floordiv__(self, c):
        return divmod_int(self, c)[0]

    def __divmod__(self, c):
        return divmod_int(self, c)

    def __abs__(self):
        return -self if bool(self < 0) else self

    # comparisons: d > 0 on the path
    def _cmp(self, o):
        n, d = parts(o)
        if d == self.d:
            return padd(self.n, n, -1)
        return padd(pmul(self.n, d), pmul(n, self.d), -1)

    @_lift
    def __lt__(self, o):
        if _special(o):
            return o > 0  # nan: False
        return lt0(self._cmp(o))

    @_lift
    def __gt__(self, o):
        if _special(o):
            return o < 0
        return lt0(pscale(self._cmp(o), -1))

    @_lift
    def __le__(self, o):
        if _special(o):
            return o > 0
        return Not(lt0(pscale(self._cmp(o), -1)))

    @_lift
    def __ge__(self, o):
        if _special(o):
            return o < 0
        return Not(lt0(self._cmp(o)))

    def __eq__(self, o):
        if isinstance(o, R) or isinstance(o, NUM):
            if _special(o):
                return False
            return eq0(self._cmp(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return 0x5EA1

    def __bool__(self):
        return bool(Not(self == 0))

    def __float__(self):
        inconclusive("float() of a symbolic real outside the encoded operations")

    __int__ = __float__
    __index__ = None

    def __round__(self, n=None):
        inconclusive("rounding of a symbolic real")

    def __repr__(self):
        return show(self.n) if self.d == ONE else f"({show(self.n)})/({show(self.d)})"

    def __format__(self, spec):
        return repr(self)

    def conjugate(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


del R._lift
numbers.Number.register(R)


def div(a, b):
    """numpy division: x/0 is inf, 0/0 is nan"""
    n1, d1 = parts(a)
    n2, d2 = parts(b)
    if bool(eq0(n2)):
        if bool(eq0(n1)):
            return float("nan")
        return float("inf") if bool(lt0(pscale(n1, -1))) else float("-inf")
    if bool(lt0(n2)):
        n1, n2 = pscale(n1, -1), pscale(n2, -1)
    # (n1/d1) / (n2/d2) = n1 d2 / (d1 n2)
    if d1 == d2:
        return mk(n1, n2)
    q = pdivexact(n1, n2)
    if q is not None:
        return mk(pmul(q, d2), d1)
    q = pdivexact(d2, d1)
    if q is not None:
        return mk(pmul(n1, q), n2)
    return mk(pmul(n1, d2), pmul(d1, n2))


def isnum(x):
    return isinstance(x, NUM) or isinstance(x, R)
