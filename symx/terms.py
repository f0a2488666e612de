"""Hash-consed Boolean terms.  Constants are Python's True / False.

A term used where Python needs a truth value asks the active engine to fork.
Atoms carry an opaque payload (used for comparisons of symbolic reals)."""

_table = {}
_by_id = []
ENGINE = None  # set by engine.Engine while it explores


class T:
    __slots__ = ("op", "args", "id", "payload", "_z", "vars_")

    def __bool__(self):
        if ENGINE is None:
            raise RuntimeError("symbolic truth value used outside an exploration")
        return ENGINE.decide(self)

    def __eq__(self, o):
        if isinstance(o, (bool, T)):
            return iff(self, o)
        if isinstance(o, int):
            return iff(self, bool(o)) if o in (0, 1) else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return self.id

    def __and__(self, o):
        return And(self, o) if isinstance(o, (bool, T)) else int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o) if isinstance(o, (bool, T)) else int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return Not(iff(self, o)) if isinstance(o, (bool, T)) else int(self) ^ o

    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __repr__(self):
        if self.op == "var":
            return str(self.payload)
        if self.op == "atom":
            return f"<{self.payload}>"
        if self.op == "not":
            return f"!{self.args[0]!r}"
        return "(" + (" & " if self.op == "and" else " | ").join(map(repr, self.args)) + ")"


def _mk(op, args, payload=None):
    key = (op, payload if payload is not None else tuple(a.id for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.payload, t._z, t.vars_ = op, args, payload, None, None
        t.id = len(_by_id)
        _by_id.append(t)
        _table[key] = t
    return t


def Var(name):
    return _mk("var", (), name)


def Atom(payload):
    """payload must be hashable and provide .z3()"""
    return _mk("atom", (), payload)


def Not(a):
    if isinstance(a, T):
        return a.args[0] if a.op == "not" else _mk("not", (a,))
    return not a


def _nary(op, absorb, items):
    seen, out = set(), []
    stack = list(reversed(items))
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            if bool(x) is absorb:
                return absorb
            continue
        if x.op == op:
            stack.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        if Not(x).id in seen:
            return absorb
        seen.add(x.id)
        out.append(x)
    if not out:
        return not absorb
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    # absorption of direct sub-clauses: a & (a | b) = a ; a | (a & b) = a
    dual = "or" if op == "and" else "and"
    ids = {t.id for t in out}
    keep = [t for t in out if not (t.op == dual and any(s.id in ids for s in t.args))]
    return keep[0] if len(keep) == 1 else _mk(op, tuple(keep))


def And(*xs):
    return _nary("and", False, xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)


def Or(*xs):
    return _nary("or", True, xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)


def Implies(a, b):
    return Or(Not(a), b)


def iff(a, b):
    if not isinstance(a, T):
        return b if a else Not(b)
    if not isinstance(b, T):
        return a if b else Not(a)
    if a.id == b.id:
        return True
    return And(Or(Not(a), b), Or(a, Not(b)))


def Xor(a, b):
    return Not(iff(a, b))


def Ite(c, a, b):
    return Or(And(c, a), And(Not(c), b))


def is_sym(x):
    return isinstance(x, T)


def to_z3(t, z3):
    if not isinstance(t, T):
        return z3.BoolVal(bool(t))
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z is not None:
            stack.pop()
            continue
        if x.op == "var":
            x._z = z3.Bool(x.payload)
        elif x.op == "atom":
            x._z = x.payload.z3()
        else:
            todo = [a for a in x.args if a._z is None]
            if todo:
                stack.extend(todo)
                continue
            zs = [a._z for a in x.args]
            x._z = z3.Not(zs[0]) if x.op == "not" else (z3.And(zs) if x.op == "and" else z3.Or(zs))
        stack.pop()
    return t._z


def evaluate(t, leaf, memo):
    """Evaluate a term; leaf(t) gives True/False/None (None = unknown) for variables and atoms."""
    if not isinstance(t, T):
        return bool(t)
    if t.id in memo:
        return memo[t.id]
    if t.op in ("var", "atom"):
        r = leaf(t)
    elif t.op == "not":
        r = evaluate(t.args[0], leaf, memo)
        r = None if r is None else not r
    else:
        absorb = t.op == "or"
        r = not absorb
        for a in t.args:
            v = evaluate(a, leaf, memo)
            if v is absorb:
                r = absorb
                break
            if v is None:
                r = None
    memo[t.id] = r
    return r
