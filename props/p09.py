"""P09 total, direct and indirect value of control."""
from props.p07 import PLACE5, PLACE6, make
from symx.gcommon import module, names, refusals, snapshot_edges
from symx.gspec import And, Not, Or, iff, recall, reduction

BOUNDS = {"quick": "all DAGs on 5 nodes; 1-2 decisions, 1-2 utilities (placements in configs())",
          "thorough": "all DAGs on 6 nodes with 1-2 decisions"}
WITNESS = [f"{m}:{v}" for m in ("total", "direct", "indirect") for v in (True, False)] + ["refused"]
OUTSIDE = "larger diagrams, more decisions"


def configs(tier):
    k = 0
    for n, places in ((5, PLACE5), (6, PLACE6 if tier == "thorough" else [])):
        for ds, us in places:
            for d in ds:
                for mode in ("total", "direct", "indirect"):
                    if mode != "indirect" and d != ds[0]:
                        continue
                    k += 1
                    yield {"name": f"{mode} n{n} D{ds} U{us} at {d}", "mode": mode, "n": n, "perm": k % 3, "ds": ds,
                           "us": us, "d": d, "weight": len(ds) * n * (3 if mode == "indirect" else 1)}
    yield {"name": "refusals", "mode": "refuse", "n": 4, "perm": 0, "ds": [1], "us": [3], "d": 1}


def body(ctx, cfg):
    m = module("pycid.analyze.value_of_control")
    topo = names(cfg["n"], cfg["perm"])
    if cfg["mode"] == "refuse":
        return refusals(ctx, topo, [
            ("voc", lambda g, d, x: m.admits_voc(g, x), 3), ("voc list", lambda g, d: m.admits_voc_list(g), 0),
            ("direct", lambda g, d, x: m.admits_dir_voc(g, x), 3),
            ("direct list", lambda g, d: m.admits_dir_voc_list(g), 0),
            ("indirect", m.admits_indir_voc, 2), ("indirect list", m.admits_indir_voc_list, 1)])
    g, G, ds, us, d = make(ctx, cfg, topo)
    before = snapshot_edges(g, topo)
    mode = cfg["mode"]
    args = (d,) if mode == "indirect" else ()
    single = {"total": m.admits_voc, "direct": m.admits_dir_voc, "indirect": m.admits_indir_voc}[mode]
    listf = {"total": m.admits_voc_list, "direct": m.admits_dir_voc_list, "indirect": m.admits_indir_voc_list}[mode]
    uo = lambda _: us  # noqa: E731
    st, lst = ctx.call(listf, g, *args)
    rec = recall(G, ds, uo)
    if st == "exc":
        ctx.out("refused", True)
        ctx.tag("refused")
        ctx.check("refused only without sufficient recall", Not(rec))
        ctx.check("single form refuses as well", ctx.call(single, g, *args, topo[-1])[0] == "exc")
        return
    ctx.check("answered only with sufficient recall", rec)
    lst = list(lst)
    ctx.out("list", sorted(lst))
    ctx.check("list has no repetition", len(set(lst)) == len(lst))
    H, done = reduction(G, ds, uo)
    ctx.check("specification reached its fixpoint", done)
    for x in topo:
        if x in ds:
            spec = False
        elif mode == "total":
            spec = Or(*[H.reach0(x, u) for u in us])
        elif mode == "direct":
            spec = Or(*[H.dipaths(x, u, lambda p: not set(p) & set(ds)) for u in us])
        else:
            Z = {v: G.e(v, d) for v in topo if v != x}
            Z[d] = True
            spec = Or(*[And(H.reach(x, d), H.reach(d, u),
                            Or(*[And(H.e(p[1], x), H.is_path(p), H.active(p, Z)) for p in H.seqs(x, u)
                                 if len(p) > 1])) for u in us if u != x])
        ctx.tag(f"{mode}:{x in lst}")
        ctx.check(f"{mode} value of control of {x}", iff(x in lst, spec))
        st, r = ctx.call(single, g, *args, x)
        ctx.check(f"single form for {x}", st == "ok" and r == (x in lst))
    after = snapshot_edges(g, topo)
    ctx.check("input unchanged", And(*[iff(after[k], before[k]) for k in before]))
