"""Imports pycid from the current source tree with two behaviour-preserving rewrites:

* the name `set` in each module is the symbolic-aware set constructor (same behaviour on concrete data);
* `for x in E: if C: raise ...` loops over an edge view check each candidate edge without first
  deciding all of them: the raise is guarded by the edge's presence."""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("PYCID_REPO", "/repo")


class _Rewrite(ast.NodeTransformer):
    def visit_For(self, node):
        self.generic_visit(node)
        if (not node.orelse and isinstance(node.target, ast.Name) and len(node.body) == 1
                and isinstance(node.body[0], ast.If) and not node.body[0].orelse
                and len(node.body[0].body) == 1 and isinstance(node.body[0].body[0], ast.Raise)
                and isinstance(node.iter, ast.Name)):
            load = lambda n: ast.Name(n, ast.Load())
            node.body[0].test = ast.BoolOp(ast.And(), [
                node.body[0].test,
                ast.Call(load("__symx_present__"), [load(node.iter.id), load(node.target.id)], [])])
            node.iter = ast.Call(load("__symx_candidates__"), [node.iter], [])
        return node


def candidates(it):
    g = getattr(it, "_graph", None)
    from . import graph
    if g is not None and graph.is_symbolic(g) and graph.MERGE:
        return [k for k in _ordered(g)]
    return it


def _ordered(g):
    from . import graph
    for u in graph._raw_nodes(g):
        if dict.__contains__(g._node, u):
            for v in list(dict.__getitem__(g._succ, u).attrs):
                yield (u, v)


def present(it, e):
    g = getattr(it, "_graph", None)
    from . import graph
    if g is not None and graph.is_symbolic(g) and graph.MERGE:
        return graph.truth(g._E.get(e, False))
    return True


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, transform, inject, post=None):
        self.transform, self.inject, self.post, self.sources = transform, inject, post, {}

    def find_spec(self, name, path=None, target=None):
        if name != "pycid" and not name.startswith("pycid."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            f, pkg = base + ".py", False
        else:
            return None
        spec = importlib.util.spec_from_file_location(name, f, loader=self,
                                                      submodule_search_locations=[base] if pkg else None)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        src = open(f, encoding="utf-8").read()
        self.sources[module.__name__] = src
        tree = ast.parse(src, f)
        if self.transform:
            tree = ast.fix_missing_locations(self.transform().visit(tree))
        module.__dict__.update(self.inject(module.__name__))
        exec(compile(tree, f, "exec"), module.__dict__)
        if self.post:
            self.post(module)


def install_graph():
    """Graph engine: symbolic edges."""
    from . import graph
    graph.install()
    inj = dict(__symx_present__=present, __symx_candidates__=candidates, set=graph.SetShim)
    fnd = Finder(_Rewrite, lambda name: inj)
    sys.meta_path.insert(0, fnd)
    return fnd


def install_plain():
    """Unpatched pycid from the current tree (replay and translation validation)."""
    fnd = Finder(None, lambda name: {})
    sys.meta_path.insert(0, fnd)
    return fnd
