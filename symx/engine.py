"""Depth-first path exploration by re-execution; feasibility and assertions are decided by z3."""
import sys
import time

try:
    import z3
except ImportError:  # the project's interpreter: use the z3 shipped with the verification tools
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

from . import terms
from .terms import T, Not, to_z3


class Steer(BaseException):
    """Path-steering; never caught by code under test (it catches Exception at most)."""


class Infeasible(Steer):
    pass


class Inconclusive(Steer):
    pass


class Stop(Steer):
    pass


class Counterexample:
    def __init__(self, label, model, detail=None):
        self.label, self.model, self.detail = label, model, detail


class Stats:
    FIELDS = ("paths", "forks", "queries", "sat", "unsat", "solver_s", "assertions", "assert_const", "assert_smt")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, assumptions=(), timeout_ms=60000, deadline=None, tactic=None):
        self.base = [a for a in assumptions if a is not True]
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.solver = z3.Tactic(tactic).solver() if tactic else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        for a in self.base:
            self.solver.add(to_z3(a, z3))
        self.vars = {}  # name -> z3 expr, everything a counterexample must fix
        self.cexs = []
        self.reached = {}
        self.depth = 0
        self.nl = {}
        self.identities = set()
        self._reset([], None)

    # -- path state ---------------------------------------------------------
    def _reset(self, prefix, model):
        self.prefix, self.pos = prefix, 0
        self.pc = []
        self.known = {}
        self.model = model
        self.mmemo = {}
        self.synced = 0
        self.pending = []
        for a in self.base:
            self._learn(a, True)

    def _learn(self, t, val):
        stack = [(t, val)]
        while stack:
            t, val = stack.pop()
            if not isinstance(t, T) or t.id in self.known:
                continue
            self.known[t.id] = val
            if t.op == "atom":
                if val:
                    stack.extend(t.payload.implied())
            elif t.op == "not":
                stack.append((t.args[0], not val))
            elif t.op == "and" and val or t.op == "or" and not val:
                stack.extend((a, val) for a in t.args)

    def eval3(self, t):
        """Three-valued evaluation under what the path condition fixes syntactically."""
        known, none = self.known, set()

        def ev(t):
            if not isinstance(t, T):
                return bool(t)
            v = known.get(t.id)
            if v is not None:
                return v
            if t.id in none:
                return None
            op = t.op
            if op == "var" or op == "atom":
                return None
            if op == "not":
                v = ev(t.args[0])
                v = None if v is None else not v
            else:
                absorb = op == "or"
                v = not absorb
                for a in t.args:
                    w = ev(a)
                    if w is absorb:
                        v = absorb
                        break
                    if w is None:
                        v = None
            if v is None:
                none.add(t.id)
            else:
                known[t.id] = v
            return v

        return ev(t)

    # -- solver -------------------------------------------------------------
    def _sync(self):
        while self.synced < len(self.pc):
            self.solver.add(to_z3(self.pc[self.synced], z3))
            self.synced += 1

    def _nonlinear(self, t):
        if not isinstance(t, T):
            return False
        v = self.nl.get(t.id)
        if v is None:
            if t.op == "atom":
                v = t.payload.nonlinear()
            else:
                v = any(self._nonlinear(a) for a in t.args)
            self.nl[t.id] = v
        return v

    def _check_nl(self, extra, timeout):
        """Nonlinear real arithmetic: nlsat on the whole conjunction, then the default solver."""
        fs = [to_z3(a, z3) for a in [*self.base, *self.pc]] + ([to_z3(extra, z3)] if extra is not None else [])
        r = z3.unknown
        for k, mk in enumerate((lambda: z3.Tactic("qfnra-nlsat").solver(), z3.Solver)):
            s = mk()
            s.set("timeout", timeout)
            s.add(fs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        return r, (s.model() if r == z3.sat else None), s

    def _check(self, extra=None, timeout=None):
        """Is pc & extra satisfiable?  Returns (sat?, model)."""
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget of the check exhausted")
        t0 = time.time()
        if any(self._nonlinear(a) for a in self.pc) or extra is not None and self._nonlinear(extra):
            r, m, solver = self._check_nl(extra, timeout or self.timeout_ms)
        else:
            solver = self.solver
            self._sync()
            if extra is not None:
                self.solver.push()
                self.solver.add(to_z3(extra, z3))
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            if extra is not None:
                self.solver.pop()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: " + solver.reason_unknown())
        if r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unsat += 1
        return r == z3.sat, m

    def _meval(self, t):
        """Evaluate under the current model (which satisfies pc)."""
        m = self.model

        def leaf(x):
            r = m.eval(to_z3(x, z3), model_completion=True)
            return z3.is_true(r)

        return terms.evaluate(t, leaf, self.mmemo)

    def _set_model(self, m):
        self.model, self.mmemo = m, {}

    # -- steering -----------------------------------------------------------
    def decide(self, t):
        v = self.eval3(t)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self._take(t, v)
            return v
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise Infeasible()
            self._set_model(m)
        v = self._meval(t)
        other_ok, m2 = self._check(Not(t) if v else t)
        if other_ok:
            self.stats.forks += 1
            self.pending.append((self.prefix[: self.pos] + [not v], m2))
        self.prefix = self.prefix[: self.pos] + [v]
        self.pos += 1
        self._take(t, v)
        return v

    def decide_free(self, t):
        """A Boolean that occurs nowhere else: both values are feasible."""
        v = self.eval3(t)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = False  # what completing any model of the path condition gives
            self.stats.forks += 1
            self.pending.append((self.prefix[: self.pos] + [True], None))
            self.prefix = self.prefix[: self.pos] + [False]
        self.pos += 1
        self._take(t, v)
        return v

    def _take(self, t, v):
        lit = t if v else Not(t)
        self.pc.append(lit)
        self._learn(t, v)

    def assume(self, t):
        """Restrict the rest of this path (only used by harnesses, before the code they constrain)."""
        v = self.eval3(t)
        if v is True:
            return
        if v is False:
            raise Infeasible()
        if self.pos < len(self.prefix):
            self.pos += 1
            self._take(t, True)
            return
        if self.model is not None and self._meval(t):
            pass
        else:
            ok, m = self._check(t)
            if not ok:
                raise Infeasible()
            self._set_model(m)
        self.prefix = self.prefix[: self.pos] + [True]
        self.pos += 1
        self._take(t, True)

    def ensure_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise Infeasible()
            self._set_model(m)
        return self.model

    def identity(self, label, a, b):
        """Ask the solver to refute a = b for two rational functions that normalise to the same form."""
        from . import poly
        self.stats.assertions += 1
        self.stats.assert_smt += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        key = (a.n, a.d, b.n, b.d)
        if key in self.identities:
            return True
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(poly.pz3(a.n) * poly.pz3(b.d) != poly.pz3(b.n) * poly.pz3(a.d))
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
            self.identities.add(key)
            return True
        raise Inconclusive("solver could not confirm a polynomial identity")

    def fact(self, t):
        """A constraint on fresh variables only: no feasibility question."""
        if not isinstance(t, T):
            return
        self.pc.append(t)
        self._learn(t, True)
        if self.model is not None and not self._meval(t):
            self._set_model(None)

    def check(self, label, prop, detail=None, strong=()):
        """The assertion: prop must hold for every value that follows this path."""
        self.stats.assertions += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        v = self.eval3(prop)
        if v is True:
            self.stats.assert_const += 1
            return True
        if v is False:
            self.stats.assert_const += 1
            m = self.ensure_model()
        else:
            self.stats.assert_smt += 1
            sat, m = self._check(Not(prop))
            if not sat:
                self._learn(prop, True)
                return True
            for s in strong:  # prefer a counterexample with a clear margin
                try:
                    ok, m2 = self._check(terms.And(Not(prop), s), 5000)
                except Inconclusive:
                    continue
                if ok:
                    m = m2
                    break
        self.cexs.append(Counterexample(label, self.decode(m), detail))
        raise Stop()

    def decode(self, m):
        out = {}
        for name, (kind, ze, *_) in self.vars.items():
            r = m.eval(ze, model_completion=True)
            if kind == "bool":
                out[name] = bool(z3.is_true(r))
            else:
                if z3.is_algebraic_value(r):
                    r = r.approx(20)
                out[name] = f"{r.numerator_as_long()}/{r.denominator_as_long()}"
        return out

    # -- exploration ---------------------------------------------------------
    def explore(self, fn, max_cex=1, max_paths=None):
        """Run fn() along every feasible path."""
        todo = [([], None)]
        outer = terms.ENGINE
        terms.ENGINE = self
        try:
            while todo:
                prefix, model = todo.pop()
                self.solver.push()
                try:
                    self._reset(list(prefix), model)
                    try:
                        fn()
                    except (Infeasible, Stop):
                        pass
                    todo.extend(self.pending)
                finally:
                    self.solver.pop()
                self.stats.paths += 1
                if len(self.cexs) >= max_cex:
                    break
                if max_paths and self.stats.paths >= max_paths:
                    raise Inconclusive(f"more than {max_paths} paths")
        finally:
            terms.ENGINE = outer
        return self.cexs
