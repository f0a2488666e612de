"""P11 role histories and copies."""
import itertools

from symx.gcommon import edge_terms, fill, names, snapshot_edges
from symx.gspec import And, iff

BOUNDS = {"quick": "3 nodes, 2 agents, all DAGs: every role assignment (built through the constructor, agents with and "
                   "without decisions or utilities), then every role change or removal of a node (an inductive step over histories), then "
                   "a copy followed by every role change of the copy or the original",
          "thorough": "4 nodes for the inductive step, 3 nodes with histories of two changes"}
WITNESS = ["op:decision", "op:utility", "op:chance", "op:remove", "copied", "owner changed"]
OUTSIDE = "more than two agents named in one history, node or edge edits after a copy"
AGENTS = (0, "b")
ROLES = [("c", None)] + [(k, a) for k in "du" for a in AGENTS]


def configs(tier):
    for cls in ("CID", "MACID", "MACIDBase"):
        n = 4 if tier == "thorough" else 3
        for first in range(3 if cls == "CID" else 5):
            for keys in (0, 1, 2):
                if cls == "CID" and keys:
                    continue
                yield {"name": f"{cls} step first={first} keys={keys}", "cls": cls, "n": n, "first": first,
                       "keys": keys, "steps": 1, "mode": "step", "weight": 2}
        for op in range(4):
            yield {"name": f"{cls} copy op={op}", "cls": cls, "n": 3, "mode": "copy", "op": op, "keys": op % 3,
                   "weight": 5}
            if tier == "thorough":
                yield {"name": f"{cls} history op={op}", "cls": cls, "n": 3, "mode": "history", "op": op, "keys": 1,
                       "weight": 9}


def start(ctx, cfg):
    """A diagram in an arbitrary consistent state; keys: which agents appear without nodes."""
    import pycid
    topo = names(cfg["n"], 1)
    roles = {}
    for i, n in enumerate(topo):
        opts = ROLES if cfg["cls"] != "CID" else [("c", None), ("d", 0), ("u", 0)]
        if cfg.get("first") is not None and i == 0:
            roles[n] = opts[cfg["first"]]
        else:
            roles[n] = ctx.choice(f"role:{n}", opts)
    order = topo[::-1] if ctx.bool("reverse list order") else topo
    decs, utils = {}, {}
    if cfg["keys"] == 1:  # every agent has an entry on both sides
        decs, utils = {a: [] for a in AGENTS}, {a: [] for a in AGENTS}
    elif cfg["keys"] == 2:
        utils = {AGENTS[1]: []}
    for n in order:
        k, a = roles[n]
        if k == "d":
            decs.setdefault(a, []).append(n)
        elif k == "u":
            utils.setdefault(a, []).append(n)
    E = edge_terms(ctx, topo)
    if cfg["cls"] == "CID":
        decs, utils = {0: decs.get(0, [])}, {0: utils.get(0, [])}
        lists = (decs[0], utils[0])
        g = pycid.CID(decisions=decs[0], utilities=utils[0])
    else:
        cls = pycid.MACID if cfg["cls"] == "MACID" else pycid.MACIDBase
        g = cls(agent_decisions=decs, agent_utilities=utils)
    given = ({a: list(l) for a, l in decs.items()}, {a: list(l) for a, l in utils.items()})
    fill(ctx, g, topo, E)
    return g, topo, roles, E, (decs, utils), given


def consistent(ctx, g, roles, what):
    """lists, owner maps and views describe exactly the assignment `roles`"""
    for kind, lists, owners, view in (("d", g.agent_decisions, g.decision_agent, g.decisions),
                                      ("u", g.agent_utilities, g.utility_agent, g.utilities)):
        want = {n: a for n, (k, a) in roles.items() if k == kind}
        got = [(n, a) for a, l in lists.items() for n in l]
        ctx.check(f"{what}: per-agent lists", sorted(got, key=repr) == sorted(want.items(), key=repr))
        ctx.check(f"{what}: owner map", dict(owners) == want)
        ctx.check(f"{what}: role view", sorted(view) == sorted(want))
    ctx.out(what, sorted((n, str(k), str(a)) for n, (k, a) in roles.items()))
    if what.startswith("copy") or what.startswith("start"):
        for n in roles:
            ctx.check(f"{what}: shape of {n}", g._get_shape(n) == {"c": "o", "d": "s", "u": "D"}[roles[n][0]])


def change(ctx, g, roles, tag, cls, op=None, topo=None):
    """One role change; returns the new assignment."""
    n = ctx.choice(f"{tag} node", [n for n in topo if n in roles])
    op = ctx.choice(f"{tag} op", [0, 1, 2, 3]) if op is None else op
    roles = dict(roles)
    if op == 3:
        old = snapshot_edges(g, topo)
        st, _ = ctx.call(g.remove_node, n) if ctx.bool(f"{tag} one by one") else ctx.call(g.remove_nodes_from, [n])
        ctx.tag("op:remove")
        ctx.check(f"{tag}: no error", st == "ok")
        rest = [v for v in topo if v in roles and v != n]
        ctx.check(f"{tag}: the node is gone", sorted(g.nodes) == sorted(rest))
        new = snapshot_edges(g, rest)
        ctx.check(f"{tag}: the other links stay", And(*[iff(old[k], new[k]) for k in new]))
        del roles[n]
        return roles
    if op == 2:
        st, _ = ctx.call(g.make_chance, n)
        new = ("c", None)
        ctx.tag("op:chance")
    else:
        a = ctx.choice(f"{tag} agent", AGENTS)
        f = g.make_decision if op == 0 else g.make_utility
        st, _ = ctx.call(f, n) if a == 0 and ctx.bool(f"{tag} default agent") else ctx.call(f, n, a)
        new = ("du"[op], a)
        ctx.tag("op:" + ("decision", "utility")[op])
    if roles[n][1] is not None and new[1] is not None and roles[n][1] != new[1]:
        ctx.tag("owner changed")
    ctx.check(f"{tag}: no error", st == "ok")
    roles[n] = new
    return roles


def body(ctx, cfg):
    g, topo, roles, E, passed, given = start(ctx, cfg)
    consistent(ctx, g, roles, "start")
    if cfg["mode"] in ("step", "history"):
        for s in range(2 if cfg["mode"] == "history" else 1):
            roles = change(ctx, g, roles, f"change {s}", cfg["cls"], cfg.get("op") if s == 0 else None, topo)
            consistent(ctx, g, roles, f"after change {s}")
        ctx.check("caller's lists untouched", passed == given)
        before = ({a: list(l) for a, l in g.agent_decisions.items()}, dict(g.utility_agent))
        ctx.check("unknown node refused", ctx.call(g.make_decision, "nowhere", 0)[0] == "exc"
                  and ctx.call(g.make_utility, "nowhere", 0)[0] == "exc"
                  and ctx.call(g.make_chance, "nowhere")[0] == "exc")
        consistent(ctx, g, roles, "after refusal")
        ctx.check("every owner is an agent", {a for _, a in roles.values() if a is not None} <= set(g.agents))
        st, c = ctx.call(g.copy)
        ctx.check("copying after the changes", st == "ok")
        if st == "ok":
            consistent(ctx, c, roles, "copy after the changes")
            ctx.check("same agents", sorted(map(str, c.agents)) == sorted(map(str, g.agents)))
        # what the caller does to the lists afterwards is invisible
        for side in passed:
            for l in side.values():
                l.append("intruder")
        consistent(ctx, g, roles, "after the caller's change")
        return
    without = ctx.bool("without cpds")
    st, c = ctx.call(g.copy_without_cpds) if without else ctx.call(g.copy)
    ctx.check("copying succeeds", st == "ok")
    ctx.tag("copied")
    ctx.check("same class", type(c) is type(g))
    ctx.check("same nodes", list(c.nodes) == list(g.nodes))
    e1, e2 = snapshot_edges(g, topo), snapshot_edges(c, topo)
    ctx.check("same edges", And(*[iff(e1[k], e2[k]) for k in e1]))
    ctx.check("edges as built", And(*[iff(e1[k], E.get(k, False)) for k in e1]))
    consistent(ctx, c, roles, "copy")
    ctx.check("same agents", sorted(map(str, c.agents)) == sorted(map(str, g.agents)))
    which = ctx.bool("change the copy")
    new = change(ctx, c if which else g, roles, "change", cfg["cls"], cfg["op"], topo)
    consistent(ctx, g, roles if which else new, "original")
    consistent(ctx, c, new if which else roles, "the copy")
