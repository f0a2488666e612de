"""P14 queries equal the truncated factorisation and leave the model unchanged."""
import itertools

from symx.ncommon import N, Spec, same, snap, value_of

ENGINE = "numeric"
BOUNDS = {"quick": "every network on 4 nodes (listed observed/intervened candidates) and networks on 3-5 nodes with the listed shapes (connected and not), 2-3 outcomes per node of several "
                   "outcome types, every table entry an arbitrary probability, every choice of one or two queried "
                   "nodes, up to two observed and up to two intervened nodes with any value "
                   "(some both observed and intervened)",
          "thorough": "every network on 4 nodes with every choice of one observed and one intervened node, and the same with more shapes on 5-6 nodes and up to three observed nodes"}
WITNESS = ["intervened", "observed", "plain", "disconnected", "both"]
ASSUMPTIONS = ["pgmpy's BeliefPropagation.query is replaced by the normalised sum-product over the model it is given "
               "(compared with the real one on pinned inputs in every run).", "Exact real arithmetic."]
OUTSIDE = "contexts of probability zero; floating-point rounding; more nodes or outcomes"

SHAPES = {
    "chain": "A; B A; C B",
    "fork": "A; B A; C A",
    "collider": "A; B; C A B",
    "triangle": "A; B A; C B A",
    "two parts": "A; B A; C; D C",
    "isolated": "A; B A; C",
    "diamond": "A; B A; C A; D C B",
    "M": "A; B; C A; D B A; E D",
    "bow": "A; B; C A B; D C; E C D",
    "long": "A; B A; C B; D C; E D; F E B",
}
DOM = {"A": ["no", "yes"], "B": [0, 1], "C": [-1, 2], "D": [0, 1], "E": [3, 5], "F": [0, 1]}


def parse(shape, styles, tri=()):
    out = []
    for i, part in enumerate(shape.split(";")):
        n, *ps = part.split()
        st = styles[i % len(styles)]
        if st == "dict" and ps:
            st = "func"
        dom = DOM[n]
        if n in tri:
            dom = {"A": ["a", "b", "c"], "B": [0, 1, 2], "C": [-1, 0, 2], "D": [0, 1, 4]}[n]
        if st == "table" and len(ps) == 0:
            dom = dom[::-1]
        out.append(N(n, ps, dom, st))
    return out


def configs(tier):
    S = [["func"], ["table", "func"], ["dict", "table", "func"]]
    k = 0
    for sh in ("chain", "fork", "collider", "triangle", "isolated"):
        for st in S:
            for nq in (1, 2):
                k += 1
                yield {"name": f"{sh} {'+'.join(st)} {nq} queried", "shape": sh, "styles": st, "nq": nq, "nc": 2, "ni": 2,
                       "kind": ["CBN", "MACIDBase", "CID"][k % 3], "weight": 3}
    for sh, tri in (("collider", "C"), ("chain", "B"), ("triangle", "A")):
        yield {"name": f"{sh} three outcomes {tri}", "shape": sh, "styles": S[2], "tri": tri, "nq": 1, "nc": 1, "ni": 1,
               "kind": "CBN", "weight": 4}
    for sh in ("two parts", "diamond"):
        for q in "ABCD":
            yield {"name": f"{sh} query {q}", "shape": sh, "styles": S[2], "nq": 1, "nc": 1, "ni": 1, "q": [q],
                   "kind": "CBN", "weight": 5}
    for sh in ("chain", "fork", "collider", "triangle"):
        yield {"name": f"{sh} observed where intervened", "shape": sh, "styles": S[2], "nq": 1, "nc": 1, "ni": 2, "both": True,
               "kind": "CID" if sh == "chain" else "CBN", "weight": 4}
    for sh, q, obs, do in (("M", "E", "C", "D"), ("M", "A", "E C", ""), ("bow", "E", "A", "C"), ("bow", "A", "E", "D"),
                           ("M", "B C", "D", ""), ("bow", "B D", "", "A"), ("two parts", "A", "C B", "D"),
                           ("isolated", "A", "C", "B")):
        yield {"name": f"{sh} {q}|{obs} do {do}", "shape": sh, "styles": S[1], "q": q.split(), "obs": obs.split(),
               "do": do.split(), "kind": "CBN", "weight": 6}
    for q in "ABCD":
        yield {"name": f"any 4-node network query {q}", "free": 4, "styles": S[2 if q in "AC" else 1], "nq": 1, "nc": 1,
               "ni": 1, "q": [q], "see": {"A": "D", "B": "C", "C": "A", "D": "B"}[q],
               "act": {"A": "BC", "B": "A", "C": "D", "D": "AC"}[q], "kind": "CBN", "weight": 9}
    if tier == "thorough":
        for q in "ABCD":
            yield {"name": f"every 4-node network query {q}", "free": 4, "styles": S[2], "nq": 1, "nc": 1,
                   "ni": 1, "q": [q], "kind": "CBN", "weight": 19}
        for sh in ("M", "bow"):
            for q in "ABCDE":
                yield {"name": f"{sh} query {q}", "shape": sh, "styles": S[2], "nq": 1, "nc": 2, "ni": 1, "q": [q],
                       "kind": "CBN", "weight": 15}
        for q, obs, do in (("F", "A", "C"), ("A", "F", "D"), ("C F", "B", ""), ("E", "F A", "")):
            yield {"name": f"long {q}|{obs} do {do}", "shape": "long", "styles": S[0], "q": q.split(),
                   "obs": obs.split(), "do": do.split(), "kind": "CBN", "weight": 15}


def body(ctx, cfg):
    shape = SHAPES.get(cfg.get("shape"))
    if "free" in cfg:  # every link is a choice
        ns = "ABCDE"[:cfg["free"]]
        shape = "; ".join(" ".join([v] + [u for u in ns[:i] if ctx.bool(f"e:{u}>{v}")]) for i, v in enumerate(ns))
    spec = Spec(ctx, parse(shape, cfg["styles"], cfg.get("tri", ())))
    names = [n.name for n in spec.nodes]
    g = spec.build(cfg["kind"])
    if "obs" in cfg:
        q, obs, do = cfg["q"], {n: spec.by[n].dom[1] for n in cfg["obs"]}, {n: spec.by[n].dom[0] for n in cfg["do"]}
    else:
        q = cfg.get("q")
        if q is None:
            q = list(ctx.choice("query", list(itertools.combinations(names, cfg["nq"]))))
            if len(q) == 2 and not connected(spec, q):
                return
        obs, do = {}, {}
        for n in names:
            if n in q:
                continue
            use = ctx.choice(f"use {n}", ["-"] + ["see"] * (len(obs) < cfg["nc"] and n in cfg.get("see", n))
                             + ["do"] * (len(do) < cfg["ni"] and n in cfg.get("act", n))
                             + ["do and see"] * ("both" in cfg and len(do) < cfg["ni"]))
            if use == "see":
                obs[n] = ctx.choice(f"value {n}", spec.by[n].dom)
            elif use == "do":
                do[n] = ctx.choice(f"value {n}", spec.by[n].dom)
            elif use == "do and see":
                do[n] = obs[n] = ctx.choice(f"value {n}", spec.by[n].dom)
                ctx.tag("both")
    if len(q) == 2 and not connected(spec, q, do):
        return
    ctx.tag("disconnected" if any(not connected(spec, [q[0], n], do) for n in names) else "connected")
    z = spec.weight(obs, do)
    ctx.assume(z > 0 if ctx.symbolic else z > 1e-9)
    before = snap(g)
    form = [list, tuple, iter, lambda l: dict.fromkeys(l).keys()][(len(names) + len(q) + 2 * len(obs) + len(do)) % 4]
    args = [form(q), obs] + ([do] if do else [])
    st, f = ctx.call(g.query, *args)
    ctx.check("the query is answered", st == "ok")
    if st != "ok":
        return
    ctx.tag("intervened" if do else "observed" if obs else "plain")
    f.normalize()
    ctx.check("answer is over the queried nodes", sorted(f.variables) == sorted(q))
    for vals in itertools.product(*[spec.by[n].dom for n in q]):
        a = dict(zip(q, vals))
        p = value_of(f, a)
        ctx.out(str(vals), p)
        ctx.eq("probability", p, spec.weight({**obs, **a}, do) / z)
    ctx.check("the queried model is unchanged", same(before, snap(g)) == [], lambda: same(before, snap(g)))


def connected(spec, q, do=()):
    seen, todo = {q[0]}, [q[0]]
    E = [(u, v) for u, v in spec.edges() if v not in do]
    while todo:
        x = todo.pop()
        for u, v in E:
            for a, b in ((u, v), (v, u)):
                if a == x and b not in seen:
                    seen.add(b)
                    todo.append(b)
    return q[1] in seen
