"""Recording stand-in for pygambit: the tree-building API that pycid uses, as plain data.

Probabilities and payoffs are kept as given (symbolic or exact).  A solver call returns whatever profiles the
harness supplied through SOLVE(game, solver name, options)."""
import types


class GambitError(Exception):
    pass


class Player:
    def __init__(self, game, label, chance=False):
        self.game, self.label, self.is_chance = game, label, chance
        self.infosets = []

    def __repr__(self):
        return f"<Player {self.label}>"


class Action:
    def __init__(self, infoset, idx):
        self.infoset, self.idx, self.label, self._prob = infoset, idx, "", None

    @property
    def prob(self):
        return self._prob

    @prob.setter
    def prob(self, p):
        if not self.infoset.player.is_chance:
            raise GambitError("probabilities only for chance moves")
        self._prob = p


class Infoset:
    def __init__(self, player, n):
        self.player, self.label, self.members = player, "", []
        self.actions = [Action(self, i) for i in range(n)]
        player.infosets.append(self)

    @property
    def is_chance(self):
        return self.player.is_chance


class Node:
    def __init__(self, game, parent=None):
        self.game, self.parent, self.infoset, self.children, self._outcome = game, parent, None, [], None
        self.label = ""

    @property
    def is_terminal(self):
        return not self.children

    @property
    def player(self):
        return self.infoset.player if self.infoset else None

    @property
    def outcome(self):
        return self._outcome

    @outcome.setter
    def outcome(self, o):
        self._outcome = o

    def append_move(self, what, actions=None):
        if self.children:
            raise GambitError("move appended to a non-terminal node")
        if isinstance(what, Infoset):
            if actions is not None:
                raise GambitError("actions given for an existing infoset")
            info = what
        else:
            if actions is None or int(actions) < 1:
                raise GambitError("a move needs at least one action")
            info = Infoset(what, int(actions))
        info.members.append(self)
        self.infoset = info
        self.children = [Node(self.game, self) for _ in info.actions]
        return info


class Outcome:
    def __init__(self, game, label):
        self.game, self.label, self.pay = game, label, {}

    def _key(self, i):
        n = len(self.game.players)
        if isinstance(i, Player):
            return self.game.players._list.index(i)
        if isinstance(i, int) and 0 <= i < n:
            return i
        for k, p in enumerate(self.game.players._list):
            if p.label == i:
                return k
        raise IndexError(f"no player {i}")

    def __setitem__(self, i, v):
        self.pay[self._key(i)] = v

    def __getitem__(self, i):
        return self.pay.get(self._key(i), 0)


class Players:
    def __init__(self, game):
        self._list, self.game = [], game
        self.chance = Player(game, "Chance", True)

    def add(self, label=""):
        p = Player(self.game, label)
        self._list.append(p)
        return p

    def __len__(self):
        return len(self._list)

    def __iter__(self):
        return iter(self._list)

    def __getitem__(self, i):
        return self._list[i]


class Outcomes(list):
    def __init__(self, game):
        self.game = game

    def add(self, label=""):
        o = Outcome(self.game, label)
        self.append(o)
        return o


class Game:
    def __init__(self):
        self.players, self.outcomes = Players(self), Outcomes(self)
        self.root = Node(self)
        self.title = ""

    @classmethod
    def new_tree(cls, *a, **k):
        return cls()

    @property
    def infosets(self):
        return [i for p in self.players for i in p.infosets]

    def write(self, *a):
        return "EFG"


class Profile:
    """behaviour profile: infoset -> action probabilities"""

    def __init__(self, probs):
        self.probs = probs

    def __getitem__(self, infoset):
        return self.probs[infoset]

    def as_behavior(self):
        return self


SOLVE = None


def _solver(name):
    def f(game, *a, **k):
        return SOLVE(game, name, k)
    return f


MODULE = types.SimpleNamespace(
    Game=Game, Infoset=Infoset, Node=Node, Player=Player, Outcome=Outcome, Decimal=lambda x: x, Rational=lambda x: x,
    nash=types.SimpleNamespace(**{n + "_solve": _solver(n) for n in
                                  ("enummixed", "enumpure", "simpdiv", "lcp", "lp", "ipa", "gnm", "logit", "liap")}),
    lib=types.SimpleNamespace(libgambit=types.SimpleNamespace(MixedStrategyProfile=Profile)))
