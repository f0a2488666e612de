"""P16 a function or dictionary relationship becomes exactly that distribution."""
import itertools
from fractions import Fraction

from symx.ncommon import func, value_of
from symx.terms import And, Not, Or

ENGINE = "numeric"
BOUNDS = ("one node with up to two parents of two or three outcomes, up to three outcomes each of which is given, left "
          "out or None in every context, every real number in [-1/2, 3/2] as a probability, declared domains in any "
          "listed order (also too small), plain outcomes, dictionaries and functions with wrong arguments")
WITNESS = ["accepted", "refused", "missing mass spread", "plain outcome", "out of domain", "wrong arguments", "dict"]
ASSUMPTIONS = ["Exact real arithmetic: sums exactly on the one-percent boundary are not claimed."]
OUTSIDE = "larger domains; outcomes that cannot be compared with each other; sums within 1e-4 of the tolerance boundary"

TOL, BAND = Fraction(1, 100), Fraction(1, 10000)


def configs(tier):
    ABC = ["a", "b", "c"]
    for dom in (None, [0, 1], [1, 0], [2, 0, 1], [1], ["sure"]):
        for form in ("function", "dict"):
            yield {"name": f"no parents, {form}, domain {dom}", "parents": {}, "outs": [0, 1], "free": 9, "dom": dom,
                   "form": form}
    for dom in (None, ABC, ["c", "b", "a"], ["b", "a"], ["d", *ABC]):
        yield {"name": f"three outcomes, domain {dom}", "parents": {}, "outs": ABC, "free": 9, "dom": dom, "form": "function",
               "weight": 2}
        yield {"name": f"three outcomes, dict, domain {dom}", "parents": {"P": [0, 1]}, "outs": ABC, "free": 9,
               "dom": dom, "form": "dict", "weight": 2}
    for dom in (None, [0, 1], [-1, 1, 0]):
        yield {"name": f"one parent, domain {dom}", "parents": {"P": ["u", "v"]}, "outs": [0, 1], "free": 2, "dom": dom,
               "form": "function", "weight": 5}
        for k in range(4):
            yield {"name": f"two parents, domain {dom}, context {k} free", "parents": {"P": [0, 1], "Q": ["x", "y"]},
                   "outs": [0, 1], "free": [k], "dom": dom, "form": "function", "weight": 5}
        for k in (0, 3, 5):
            yield {"name": f"mixed parents, domain {dom}, context {k} free", "parents": {"Q": [2, 1, 0], "P": ["x", "y"]},
                   "outs": [0, 1], "free": [k], "dom": dom, "form": "function", "weight": 5}
    for dom in (None, [0, 1, 2], [2, 1, 0, 5]):
        yield {"name": f"plain outcomes, domain {dom}", "parents": {"P": [0, 1], "Q": ["y", "x"]}, "outs": [0, 1, 2],
               "dom": dom, "form": "plain", "weight": 3}
    for bad in ("missing", "extra", "other", "none"):
        for par in ({"P": [0, 1]}, {"P": [0, 1], "Q": [0, 1]}):
            yield {"name": f"{bad} argument of {len(par)}", "parents": par, "outs": [0, 1], "dom": None, "form": "wrong",
                   "bad": bad}
    if tier == "thorough":
        for dom in (None, [-1, 1, 0]):
            for ks in itertools.combinations(range(4), 2):
                yield {"name": f"two parents, domain {dom}, contexts {ks} free", "parents": {"P": [0, 1], "Q": ["x", "y"]},
                       "outs": [0, 1], "free": list(ks), "dom": dom, "form": "function", "weight": 25}
            yield {"name": f"one parent, three outcomes, domain {dom}", "parents": {"P": ["u", "v"]}, "outs": [-1, 0, 1],
                   "free": 2, "dom": dom, "form": "function", "weight": 60}
        for d in itertools.permutations(["a", "b", "c"]):
            yield {"name": f"one parent, ordered domain {d}", "parents": {"P": [1, 0]}, "outs": ["a", "b", "c"],
                   "free": [1], "dom": list(d), "form": "function", "weight": 15}


def body(ctx, cfg):
    import pycid
    from pycid import StochasticFunctionCPD
    g = pycid.CausalBayesianNetwork()
    g.add_nodes_from([*cfg["parents"], "Y"])
    for p in cfg["parents"]:
        g.add_edge(p, "Y")
    for p, d in cfg["parents"].items():
        g.model[p] = StochasticFunctionCPD(p, lambda d=tuple(d): {d[0]: 0.5}, g, domain=list(d)) if len(d) == 2 else \
            StochasticFunctionCPD(p, lambda d=tuple(d): {d[0]: 0.25, d[2]: 0.5}, g, domain=list(d))
    ps = list(cfg["parents"])
    cols = list(itertools.product(*cfg["parents"].values()))
    outs, form = cfg["outs"], cfg["form"]
    if form == "wrong":
        args = {"missing": ps[:-1], "extra": [*ps, "Z"], "other": [*ps[:-1], "W"], "none": []}[cfg["bad"]]
        f = eval("lambda %s: {0: 0.5, 1: 0.5}" % ", ".join(args))
        before = set(g.model.keys())
        st, _ = ctx.call(g.model.__setitem__, "Y", f)
        ctx.check("a function with the wrong arguments is refused", st == "exc")
        ctx.tag("wrong arguments")
        ctx.out("refused", st)
        return
    given = {}
    free = cfg.get("free", 0)
    rows = [()] if form == "dict" else cols
    for i, c in enumerate(rows):
        if form == "plain":
            given[c] = ctx.choice(f"outcome {i}", outs)
            ctx.tag("plain outcome")
        elif i < free if isinstance(free, int) else i in free:
            d = {}
            for o in outs:
                how = ctx.choice(f"how {i} {o}", ["given", "absent", "None"] if o != outs[-1] or d else ["given"])
                if how != "absent":
                    d[o] = ctx.real(f"p {i} {o}", Fraction(-1, 2), Fraction(3, 2)) if how == "given" else None
            given[c] = d
        else:
            given[c] = {outs[i % len(outs)]: 0.25} if i % 3 else {o: 1 / len(outs) for o in reversed(outs)}
    dom = cfg["dom"]
    # what it should become
    dicts = {c: given[() if form == "dict" else c] for c in cols}
    dicts = {c: d if isinstance(d, dict) else {d: 1} for c, d in dicts.items()}
    mentioned = set().union(*[d.keys() for d in dicts.values()])
    domain = dom or sorted(mentioned)
    fits = mentioned <= set(domain)
    table, must, may = {}, [fits], [fits]
    if fits:
        for c, d in dicts.items():
            known = {o: p for o, p in d.items() if p is not None}
            missing = [o for o in domain if o not in known]
            total = sum(known.values())
            row = {**known, **{o: (1 - total) / len(missing) for o in missing}}
            if missing and known and not form == "plain":
                ctx.tag("missing mass spread")
            for o in domain:
                table[c + (o,)] = row[o]
                must += [row[o] >= 0, row[o] <= 1]
            if not missing:
                for edge in (1 + TOL, 1 - TOL):  # the boundary itself is not claimed
                    ctx.assume(Or(total <= edge - BAND, total >= edge + BAND) if ctx.symbolic else abs(total - edge) >= BAND * 0.99)
                must += [total - 1 <= TOL - BAND, total - 1 >= BAND - TOL]
                may += [total - 1 <= TOL + BAND, total - 1 >= -BAND - TOL]
        may += must[1:1 + 2 * len(table)] if not ctx.symbolic else []
    rel = given[()] if form == "dict" else func(ps, lambda *a: given[a])
    if dom is None:
        st, _ = ctx.call(g.model.__setitem__, "Y", rel)
    else:
        f = rel if form != "dict" else (lambda **pv: rel)

        def put():
            g.model["Y"] = StochasticFunctionCPD("Y", f, g, domain=list(dom))
        st, _ = ctx.call(put)
    if form == "dict":
        ctx.tag("dict")
    ok = st == "ok"
    ctx.tag("accepted" if ok else "refused" if fits else "out of domain")
    ctx.out("accepted", ok)
    if not ok:
        ctx.check("a proper distribution is accepted", Not(And(*must)) if ctx.symbolic else not near(must, given))
        return
    if ctx.symbolic:
        entries = [t for x in table.values() for t in (x >= 0, x <= 1)]
        ctx.check("improper distributions are refused", And(*may, *entries))
    else:
        ctx.check("improper distributions are refused", all(may) and all(-1e-9 <= x <= 1 + 1e-9 for x in table.values()))
    if not fits:
        return
    c = g.get_cpds("Y")
    ctx.check("the table is over the node and its parents", sorted(c.variables) == sorted(["Y", *ps]))
    ctx.check("the domain is the declared or sorted one", list(c.state_names["Y"]) == list(domain) and
              list(g.model.domain["Y"]) == list(domain))
    for col in cols:
        for o in domain:
            x = value_of(c, {"Y": o, **dict(zip(ps, col))})
            ctx.out(str((col, o)), x)
            ctx.eq("table entry", x, table[col + (o,)])


def near(must, given):
    """concretely: proper, with room for rounding"""
    return all(must)
