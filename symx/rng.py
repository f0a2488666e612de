"""Stand-in for numpy.random as seen by pycid.random.random_cpd: an arbitrary deterministic generator.

The state is a value; seeding puts it into a state that depends on the seed alone, each draw is an arbitrary result
that depends on the state alone and moves the state on.  Used by the symbolic run (draws are symbolic) and, with the
values of the counterexample, by the replay."""
import numpy as np


class State:
    def __init__(self, key):
        self.key = key  # (generator number, number of draws so far)

    def __eq__(self, o):
        return isinstance(o, State) and self.key == o.key

    def __repr__(self):
        return "State%r" % (self.key,)


class World:
    """what every generator draws in every state"""

    def __init__(self, ctx, nan_flag=True):
        self.ctx, self.nan_flag = ctx, nan_flag
        self.seeds = []      # seeds met so far, pairwise different on this path
        self.fresh = 0       # generators seeded from the operating system
        self.vecs = {}

    def seed_number(self, s):
        if s is None:
            self.fresh += 1
            return "os%d" % self.fresh
        if not bool(s >= 0) or not bool(s < 2 ** 32):
            raise ValueError("Seed must be between 0 and 2**32 - 1")
        for i, t in enumerate(self.seeds):
            if bool(s == t):
                return i
        self.seeds.append(s)
        return len(self.seeds) - 1

    def uniform(self, key):
        return self.ctx.real(f"u{key}", 0, 1)

    def dirichlet(self, key, k):
        if (key, k) not in self.vecs:
            ctx = self.ctx
            if self.nan_flag and ctx.bool(f"underflow{key}"):
                v = [float("nan")] * k
            elif k == 1:
                v = [1]
            else:
                v = [ctx.real(f"d{key}.{i}", 0, 1, typical=(0, 1 / k)) for i in range(1, k)]
                ctx.assume(sum(v) <= 1)
                v = [1 - sum(v), *v]
            self.vecs[key, k] = v
        return list(self.vecs[key, k])


class Generator:
    def __init__(self, world, key):
        self.w, self.state = world, State(key)

    def _next(self):
        g, i = self.state.key
        self.state = State((g, i + 1))
        return f"[{g},{i}]"

    def get_state(self, legacy=True):
        return self.state

    def set_state(self, s):
        if not isinstance(s, State):
            raise TypeError("state")
        self.state = s

    def seed(self, s=None):
        self.state = State((self.w.seed_number(s), 0))

    def dirichlet(self, alpha, size=None):
        alpha = [a for a in np.asarray(alpha).flat]
        if not alpha or not all(a > 0 for a in alpha):
            raise ValueError("alpha <= 0")
        rows = 1 if size is None else int(np.prod(size))
        out = np.empty((rows, len(alpha)), dtype=object)
        for r in range(rows):
            out[r, :] = self.w.dirichlet(self._next(), len(alpha))
        if not any(type(x).__name__ in ("R", "Fraction") for x in out.flat):
            out = out.astype(float)
        shape = () if size is None else (size,) if isinstance(size, int) else tuple(size)
        return out.reshape(shape + (len(alpha),))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high - low > 64:
            return self.w.ctx.int(f"i{self._next()}", low, high - 1)  # only used to make up a seed
        return self.w.ctx.choice(f"i{self._next()}", range(low, high))

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        seq = list(range(a)) if isinstance(a, int) else list(a)
        return seq[self.randint(0, len(seq))]

    def random(self, size=None):
        if size is not None:
            raise NotImplementedError
        return self.w.uniform(self._next())

    rand = random_sample = random


def world(ctx, nan_flag=True):
    """a fake numpy.random module: functions work on one global generator"""
    import types
    w = World(ctx, nan_flag)
    g = Generator(w, ("global", 0))
    m = types.SimpleNamespace(**{n: getattr(g, n) for n in dir(g) if not n.startswith("_") and n not in ("w", "state")})

    def seeded(s=None):
        n = Generator(w, ("-", 0))
        n.seed(s)
        return n

    m.RandomState = m.default_rng = seeded
    m.GLOBAL = g
    return m


class Numpy:
    """numpy with another random module"""

    def __init__(self, base, rnd):
        self.base, self.random = base, rnd

    def __getattr__(self, n):
        return getattr(self.base, n)
