"""Reads a pygambit game tree (the real one or the recording stand-in) against a diagram."""
import itertools
from fractions import Fraction

from . import poly


def num(ctx, x):
    """number of a probability or payoff (floats arise only in fully numeric parts: rounding removed)"""
    if isinstance(x, poly.R) or isinstance(x, (int, Fraction)):
        return x
    return poly.frac(float(x)) if ctx.symbolic else float(x)


def leaves(game):
    """Yield (list of (node, action index), leaf)."""
    todo = [([], game.root)]
    while todo:
        path, n = todo.pop()
        if n.is_terminal:
            yield path, n
            continue
        for i, c in reversed(list(enumerate(n.children))):
            todo.append((path + [(n, i)], c))


def infoset_of(mapping, d, cx):
    """the information set of a decision in a context; mapping keys are (decision, ((parent, outcome), ...))"""
    hits = [v for k, v in mapping.items() if k[0] == d and dict(k[1]) == cx]
    return hits[0] if len(hits) == 1 else None


def contexts(spec, d):
    n = spec.by[d]
    for c in itertools.product(*[spec.by[p].dom for p in n.parents]):
        yield c, dict(zip(n.parents, c))


def tree_nodes(spec, decs):
    return [n for n in spec.nodes if n.name in decs or any(n.name in spec.by[d].parents for d in decs)]


def path_state(spec, nodes, path):
    """Diagram outcomes along a path, read off the action labels (unique across the diagram); None if unreadable."""
    where = {str(o): (n.name, o) for n in nodes for o in n.dom}
    a = {}
    for n, i in path:
        hit = where.get(n.infoset.actions[i].label)
        if hit is None or hit[0] in a:
            return None
        a[hit[0]] = hit[1]
    return a


def index_infosets(spec, decs, mapping):
    """[(decision, context tuple, infoset)] for every decision and context, or None where one is missing"""
    return [(d, c, infoset_of(mapping, d, cx)) for d in decs for c, cx in contexts(spec, d)]


def find(table, infoset):
    for d, c, i in table:
        if i is not None and i == infoset:
            return d, c
    return None


def leaf_weight(ctx, table, strategy, path):
    """product of chance probabilities and strategy probabilities along a path"""
    w = 1
    for n, i in path:
        if n.player.is_chance:
            w = w * num(ctx, n.infoset.actions[i].prob)
        else:
            d, c = find(table, n.infoset)
            w = w * strategy[d][c][i]
    return w
