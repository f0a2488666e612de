From 71e457182633938be6f564236727722a2e05f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 01/40] fix: repeat the removal of nonrequisite links until
 none is left

---
 pycid/analyze/requisite_graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pycid/analyze/requisite_graph.py b/pycid/analyze/requisite_graph.py
index 2e70d90..985303f 100644
--- a/pycid/analyze/requisite_graph.py
+++ b/pycid/analyze/requisite_graph.py
@@ -43,8 +43,14 @@ def requisite_graph(cid: MACIDBase) -> MACIDBase:
     requisite_graph = cid.copy()
     decisions = cid.get_valid_order()
 
-    for decision in reversed(decisions):
-        non_requisite_nodes = set(cid.get_parents(decision)) - set(requisite_list(requisite_graph, decision))
-        for nr in non_requisite_nodes:
-            requisite_graph.remove_edge(nr, decision)
+    # removing a link can make links considered earlier nonrequisite, so repeat until nothing changes
+    changed = True
+    while changed:
+        changed = False
+        for decision in reversed(decisions):
+            parents = requisite_graph.get_parents(decision)
+            non_requisite_nodes = set(parents) - set(requisite_list(requisite_graph, decision))
+            for nr in non_requisite_nodes:
+                requisite_graph.remove_edge(nr, decision)
+                changed = True
     return requisite_graph
-- 
2.43.0


From 13f7f1122aae767f1233478b03cf253cb170f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 02/40] fix: decisions at forks need not be effective for a
 path to be effective

---
 pycid/analyze/reasoning_patterns.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..6359147 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,10 +34,17 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
-    dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    """Check whether a path is effective.
+
+    A path is effective if all decision nodes on it, except possibly the initial node, and except fork nodes,
+    are effective.
+    """
     # all([]) evaluates to true => this covers case where path has no decision nodes
-    return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
+    return all(
+        node in effective_set or get_motif(mb, path, idx) == "fork"
+        for idx, node in enumerate(path)
+        if idx > 0 and node in mb.decisions
+    )
 
 
 def _directed_effective_path_not_through_set_y(
-- 
2.43.0


From 285cdc3462dd85cf26377e3c7694b8bc23c81b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 03/40] fix: signaling considers every backdoor path, not just
 the first one found

---
 pycid/analyze/reasoning_patterns.py | 45 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 6359147..243386f 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -59,19 +59,15 @@ def _directed_effective_path_not_through_set_y(
     )
 
 
-def _effective_backdoor_path_not_blocked_by_set_w(
+def _effective_backdoor_paths_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
-) -> Optional[List[str]]:
-    """
-    Returns the effective backdoor path not blocked if we condition on nodes in set w.
-    If no such path exists, this returns None.
-    """
+) -> Iterator[List[str]]:
+    """Iterates over the effective backdoor paths not blocked if we condition on nodes in set w."""
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -174,21 +170,22 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
-
-                if _get_key_node(macid, path):
-                    key_node = _get_key_node(macid, path)
-                else:
-                    return False
-
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
-
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
+                    try:
+                        key_node = _get_key_node(macid, path)
+                    except ValueError:
+                        continue
+
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(
+                        node for node in macid.get_parents(decision) if node not in key_node_descendants
+                    )
+
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From 491c90e51ee02551769e7a1cdaa74e8181c64ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 04/40] fix: revealing/denying requires the indirect front-door
 path to be effective

---
 pycid/analyze/reasoning_patterns.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 243386f..da70c33 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -70,6 +70,24 @@ def _effective_backdoor_paths_not_blocked_by_set_w(
             yield path
 
 
+def _effective_indirect_frontdoor_path_exists(
+    mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
+) -> bool:
+    """Check whether an effective indirect front-door path exists that's not blocked if we condition on set w."""
+    for path in find_all_undir_paths(mb, start, finish):
+        is_frontdoor_path = path[0] in mb.get_parents(path[1])
+        contains_collider = "collider" in get_motifs(mb, path)
+        not_blocked_by_w = is_active_path(mb, path, w)
+        if (
+            is_frontdoor_path
+            and contains_collider
+            and not_blocked_by_w
+            and _path_is_effective(mb, path, effective_set)
+        ):
+            return True
+    return False
+
+
 def _effective_undir_path_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
 ) -> Union[List[str], None]:
@@ -223,7 +241,7 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
+                if _effective_indirect_frontdoor_path_exists(macid, decision, u_b, effective_set, cond_nodes):
                     return True
     else:
         return False
-- 
2.43.0


From 3ac25b3a2575a1913b66830a5bffa4e8b54b5cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 05/40] fix: diagrams no longer share the agents' node lists
 with their caller

---
 pycid/core/macid_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..8eb757f 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,9 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        # copy the lists, so that later role changes don't affect the caller's lists (and vice versa)
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From 0d6c9fa5e78e9b20209b28e14c96d89a0e8d2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 06/40] fix: keep agents that have no decisions or no utilities
 in role changes and copies

---
 pycid/core/cid.py        |  2 ++
 pycid/core/macid.py      |  2 ++
 pycid/core/macid_base.py | 18 ++++++++++--------
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index a909828..879c4c5 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -75,6 +75,8 @@ class CID(MACIDBase):
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
         for agent in self.agents:
+            new.agent_decisions[agent] = []
+            new.agent_utilities[agent] = []
             for decision in self.agent_decisions[agent]:
                 new.make_decision(decision, agent)
             for utility in self.agent_utilities[agent]:
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..f04c111 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -215,6 +215,8 @@ class MACID(MACIDBase):
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
         for agent in self.agents:
+            new.agent_decisions[agent] = []
+            new.agent_utilities[agent] = []
             for decision in self.agent_decisions[agent]:
                 new.make_decision(decision, agent)
             for utility in self.agent_utilities[agent]:
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 8eb757f..397d20a 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -89,6 +89,10 @@ class MACIDBase(CausalBayesianNetwork):
         # copy the lists, so that later role changes don't affect the caller's lists (and vice versa)
         self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
         self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
+        # every agent has an entry in both mappings, even if it has no decisions or no utilities
+        for agent in [*self.agent_decisions, *self.agent_utilities]:
+            self.agent_decisions.setdefault(agent, [])
+            self.agent_utilities.setdefault(agent, [])
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
@@ -113,19 +117,15 @@ class MACIDBase(CausalBayesianNetwork):
         - agent specifies which agent the decision node should belong to in a MACID.
         """
         self.make_chance(node)
-        if agent not in self.agent_decisions:
-            self.agent_decisions[agent] = [node]
-        else:
-            self.agent_decisions[agent].append(node)
+        self.agent_decisions.setdefault(agent, []).append(node)
+        self.agent_utilities.setdefault(agent, [])
         self.decision_agent[node] = agent
 
     def make_utility(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node."""
         self.make_chance(node)
-        if agent not in self.agent_utilities:
-            self.agent_utilities[agent] = [node]
-        else:
-            self.agent_utilities[agent].append(node)
+        self.agent_utilities.setdefault(agent, []).append(node)
+        self.agent_decisions.setdefault(agent, [])
         self.utility_agent[node] = agent
 
     def make_chance(self, node: str) -> None:
@@ -428,6 +428,8 @@ class MACIDBase(CausalBayesianNetwork):
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
         for agent in self.agents:
+            new.agent_decisions[agent] = []
+            new.agent_utilities[agent] = []
             for decision in self.agent_decisions[agent]:
                 new.make_decision(decision, agent)
             for utility in self.agent_utilities[agent]:
-- 
2.43.0


From ab87775704ca1a633e1e86d0f7a2a3ad67594cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 07/40] fix: queries no longer remove unconnected nodes from
 the queried model

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..4fece79 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,9 +165,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        for node in list(cbn.nodes):
-            if node not in connected_nodes:
-                cbn.remove_node(node)
+        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        if disconnected_nodes and cbn is self:
+            cbn = self.copy()  # leave the queried model unchanged
+        for node in disconnected_nodes:
+            cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-- 
2.43.0


From c5ddc8d2d469dbb37e6f708ec39aeac71d863293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 08/40] fix: contexts may mention variables with a plain
 TabularCPD

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 397d20a..1582ab2 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -159,7 +159,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From 01eaf8ffc7bb1a3a8cb8a443f01f7339baf5ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 09/40] fix: removing a node also removes its role

---
 pycid/core/macid_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 1582ab2..4dee5eb 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -139,6 +139,12 @@ class MACIDBase(CausalBayesianNetwork):
             agent = self.utility_agent.pop(node)
             self.agent_utilities[agent].remove(node)
 
+    def remove_node(self, node: str) -> None:
+        """Remove a node from the (MA)CID, together with its role"""
+        if node in self.nodes():
+            self.make_chance(node)
+        super().remove_node(node)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Union[Relationship, List[Outcome]]) -> None:
         super().add_cpds(*cpds, **relationships)
 
-- 
2.43.0


From 08a9f86a4e9202cce0a85b438d27554e4b0fcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 10/40] fix: subgames keep tables' outcome order and accept
 plain TabularCPDs

---
 pycid/core/macid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index f04c111..f5e7180 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -105,9 +105,9 @@ class MACID(MACIDBase):
         for node in parents_for_marginalisation_of_original_cpd:
             cpd = macid_copy.get_cpds(node)
             cpd.marginalize(macid_copy.get_parents(node))
-            marginalised_probs = cpd.get_values()
-            unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(cpd.domain, unpack_probs))
+            sg_macid.model[node] = TabularCPD(
+                node, cpd.variable_card, cpd.get_values(), state_names={node: cpd.state_names[node]}
+            )
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From bc7f003564b8f0d9b15149b4a97474f6924ad139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 11/40] fix: match tables to domains by outcome, not by
 position

---
 pycid/core/causal_bayesian_network.py | 5 +++++
 pycid/core/cpd.py                     | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 4fece79..a1154f8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -70,6 +70,11 @@ class CausalBayesianNetwork(BayesianNetwork):
         def sync_state_names(self) -> None:
             """Inform each CPD about the domains of other variables"""
             for cpd in self.cbn.get_cpds():
+                # a table may list the outcomes of a variable in another order than its domain does
+                for axis, variable in enumerate(cpd.variables):
+                    names, domain = cpd.state_names.get(variable), self.domain.get(variable)
+                    if names and domain and names != domain and set(names) == set(domain):
+                        cpd.values = np.take(cpd.values, [names.index(outcome) for outcome in domain], axis=axis)
                 cpd.store_state_names(None, None, dict(self.domain))
 
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 7c04a98..11a0bbf 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -120,7 +120,9 @@ class StochasticFunctionCPD(TabularCPD):
             probability_matrix,
             evidence,
             evidence_card,
-            state_names=state_names if state_names is not None else {self.variable: self.domain},
+            state_names=state_names
+            if state_names is not None
+            else {self.variable: self.domain, **{p: list(cbn.model.domain[p]) for p in evidence}},
         )
 
     def stochastic_function(self, **pv: Outcome) -> Mapping[Outcome, float]:
-- 
2.43.0


From 64abd4c9871e8268af05ebd775faf9d60adeac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 12/40] fix: expected values come in the requested order

---
 pycid/core/causal_bayesian_network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index a1154f8..88863b1 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -218,15 +218,20 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        variables = list(variables)
+        if not variables:
+            return []
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-        ev = np.array([0.0 for _ in factor.variables])
+        # the factor may list the variables in another order than requested
+        positions = [factor.variables.index(variable) for variable in variables]
+        ev = np.array([0.0 for _ in variables])
         for idx, prob in np.ndenumerate(factor.values):  # type: ignore
             # idx contains the information about the value each variable takes
             # we use state_names to convert index into the actual value of the variable
             ev += prob * np.array(  # type: ignore
-                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in enumerate(factor.variables)]
+                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in zip(positions, variables)]
             )
             if np.isnan(ev).any():
                 raise RuntimeError(
-- 
2.43.0


From 48d66a44895bf231445d4e4f250a48a8f4569c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 13/40] fix: chance nodes of a game tree may have parents
 outside the tree

---
 pycid/export/gambit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..81904a8 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -68,7 +68,8 @@ def macid_to_efg(
             # get current node
             cur_node = _get_cur_node(game, node_idx)
             parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
+            path = node_idx_to_state[node_idx]
+            parents_actions = {parent: path[parent] for parent in parents if parent in path}
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
@@ -95,8 +96,8 @@ def macid_to_efg(
                     state_info.update({node: action})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
             else:
-                # otherwise is a chance node
-                factor = macid.query([node], context=parents_actions)
+                # otherwise is a chance node: condition on the whole path if not all its parents are on it
+                factor = macid.query([node], context=parents_actions if len(parents_actions) == len(parents) else path)
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
-- 
2.43.0


From fef0a17dedd3617fcc02bc33bb5fde3a71aba086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 14/40] fix: different decisions never share an information set

---
 pycid/export/gambit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 81904a8..a9d4fa8 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -77,7 +77,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -183,7 +183,7 @@ def behavior_to_cpd(
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -192,7 +192,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (node, tuple(pv.items()))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From 320b04aec0ea8634697eac3f440765a284780ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 15/40] fix: equilibria that leave an agent's own unreached
 decisions open

---
 pycid/export/gambit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index a9d4fa8..c09512d 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -201,7 +201,8 @@ def behavior_to_cpd(
             return {}
         # get the action probs for the infoset
         action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
-        return action_probs
+        # the solver prescribes nothing where the agent's own earlier actions rule the infoset out
+        return action_probs if any(action_probs.values()) else {}
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
         """Adds __name__ and __doc__ to partial functions"""
-- 
2.43.0


From cbdda28e859a6c40ff50a976a356bf13124342d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 16/40] fix: quantitative value of control no longer changes
 the caller's diagram

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..2828d2a 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -60,6 +60,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
     if node not in cid.nodes:
         raise KeyError(f"{node} is not present in the cid")
 
+    cid = cid.copy()
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-- 
2.43.0


From 037f5fbf239734f02054382137cf3a68dd68d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 17/40] fix: detect mechanism nodes that clash with nodes of
 the diagram

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 4dee5eb..b0af9af 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -481,8 +481,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node + "mec" in cid.nodes:
+                raise ValueError(f"can't create a mechanism graph when there are nodes {node} and {node}mec")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From 2e09bdeae91353a8c7cf862549291b3a9949a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 18/40] fix: random diagrams have sufficient recall when
 requested

---
 pycid/random/random_macidbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 113b29e..abece5e 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -95,8 +95,9 @@ def random_macidbase(
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
-                if not _check_max_in_degree(mb, max_in_degree):
-                    # adding edges for sufficient recall requirement violates max_in_degree: resample a new random DAG
+                if not mb.sufficient_recall() or not _check_max_in_degree(mb, max_in_degree):
+                    # adding edges didn't suffice for sufficient recall or violates max_in_degree: resample a new random
+                    # DAG
                     continue
 
             if add_cpds:
-- 
2.43.0


From 0a90603dc1d5cd201798e32abeb29e3ffa6cda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 19/40] fix: random DAGs respect the maximal in-degree

---
 pycid/random/random_dag.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..c4092a3 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -20,6 +20,11 @@ def add_random_edge(dag: DAG, node_order: List[str], max_in_degree: int = 4) ->
 def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degree: int = 4) -> DAG:
     """Create a connected, random directed acyclic graph (DAG), with the given number of nodes,
     the given edge density, and with no node exceeding having too high in degree"""
+    maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
+    number_of_edges = int(edge_density * maximum_number_of_edges)
+    if (max_in_degree < 1 < number_of_nodes) or number_of_edges > sum(min(i, max_in_degree) for i in range(number_of_nodes)):
+        raise ValueError(f"A DAG with edge density {edge_density} must exceed the maximal in-degree {max_in_degree}")
+
     node_names = [f"X{i}" for i in range(number_of_nodes)]
     dag = DAG()
 
@@ -44,8 +49,7 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
         visited.append(node)
 
     # Then add edges until desired density is reached
-    maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    while dag.number_of_edges() < number_of_edges:
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From ecb3d7d4ad8d4fce0246ffe3548b91f86b7eeee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 20/40] fix: RandomCPD accepts the seed 0

---
 pycid/random/random_cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..359ec7f 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -39,7 +39,7 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = seed if seed is not None else np.random.randint(0, 10000)
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
-- 
2.43.0


From be0617fce7c26be3b8e05f9ae561598e1f702c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 21/40] fix: RandomCPD accepts every seed numpy accepts

---
 pycid/random/random_cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 359ec7f..698e58b 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -44,7 +44,7 @@ class RandomCPD:
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
+        with temp_seed((self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
-- 
2.43.0


From 7ceff5b2f7c09202d19811acb4fa1d0d2a6c8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 22/40] fix: tables follow changes of a node's parents whenever
 the relationship fits them

---
 pycid/core/causal_bayesian_network.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 88863b1..a95d2e8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -67,6 +67,19 @@ class CausalBayesianNetwork(BayesianNetwork):
             except ValueError:
                 pass
 
+        def refresh(self, variable: str) -> None:
+            """Update the table of a variable whose parents have changed, if its relationship fits the new parents"""
+            relationship = self[variable]
+            if isinstance(relationship, TabularCPD):
+                return
+            try:
+                self.to_tabular_cpd(variable, relationship)
+            except ParentsNotReadyException:
+                pass
+            except Exception:
+                return  # needs to be replaced
+            self[variable] = relationship
+
         def sync_state_names(self) -> None:
             """Inform each CPD about the domains of other variables"""
             for cpd in self.cbn.get_cpds():
@@ -102,14 +115,14 @@ class CausalBayesianNetwork(BayesianNetwork):
     def remove_edge(self, u: str, v: str) -> None:
         """removes an edge u to v that exists from the CBN"""
         super().remove_edge(u, v)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
-            self.model[v] = self.model[v]
+        if v in self.model:
+            self.model.refresh(v)
 
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
-            self.model[v] = self.model[v]
+        if v in self.model:
+            self.model.refresh(v)
 
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
         """
-- 
2.43.0


From c0aca76dbd683d9d68b1d04a3ac7f1c97bae84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 23/40] fix: RandomCPD with small smoothness no longer yields
 nan

---
 pycid/random/random_cpd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 698e58b..0bff318 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -46,6 +46,8 @@ class RandomCPD:
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
         with temp_seed((self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
+            if np.isnan(prob_vec).any():  # underflow when smoothness is small: all probability on one outcome
+                prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
     def __name__(self) -> str:
-- 
2.43.0


From 9e3fc2711f4a2dbca833a724a9a65177bc7e3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 24/40] fix: nodes can be given a distribution after a parent's
 distribution was removed

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 11a0bbf..d093351 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -103,7 +103,7 @@ class StochasticFunctionCPD(TabularCPD):
 
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
-        evidence_card = [cbn.get_cardinality(p) for p in evidence]
+        evidence_card = [len(cbn.model.domain[p]) for p in evidence]
         probability_list = []
         for pv in self.parent_values():
             probabilities = complete_prob_dictionary(self.stochastic_function(**pv))
-- 
2.43.0


From f7865f464d36e511dcd9f6e97670fca741ddec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 25/40] fix: copies no longer depend on later changes to the
 original's domains

---
 pycid/core/causal_bayesian_network.py | 5 ++++-
 pycid/export/gambit.py                | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index a95d2e8..b7f6cfc 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -273,7 +273,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            relationship = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            if isinstance(relationship, StochasticFunctionCPD):
+                relationship.cbn = model_copy  # so that later changes to self don't affect the copy
+            model_copy.model[v] = relationship
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index c09512d..fc2f139 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -192,7 +192,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (node, tuple(pv.items()))
+        pv_tuple = (node, tuple((parent, pv[parent]) for parent in macid.get_parents(node)))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From d3efbd967a865cfeeca94685febdb578ad56d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 26/40] fix: value of control of a utility node still counts
 its utility

quantitative_voc turned the node into a decision, which dropped it from the
utilities, so controlling a utility node could have a negative value.
---
 pycid/analyze/value_of_control.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 2828d2a..e0c716a 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -64,6 +64,14 @@ def quantitative_voc(cid: CID, node: str) -> float:
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
+    if node in cid.utilities:
+        # the agent still values the utility node that it now controls
+        value = f"{node}_value"
+        while value in cid.nodes:
+            value += "_"
+        cid.add_edge(node, value)
+        cid.add_cpds(**{value: lambda **pv: pv[node]})
+        cid.make_utility(value)
     cid.make_decision(node)
     # optimal policy in the modified CID where the agent can now decide the CPD for node.
     cid.impute_optimal_policy()
-- 
2.43.0


From 6577baf32ec968a9ed407361fa8e81a8a038497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 27/40] fix: expected utility of utilities in disconnected
 parts of the diagram

The joint query over an agent's utility nodes was refused when they are not
mutually connected; only their separate expectations are needed.
---
 pycid/core/macid_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index b0af9af..8f7aca2 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -207,7 +207,11 @@ class MACIDBase(CausalBayesianNetwork):
 
         agent: Evaluate the utility of this agent.
         """
-        return sum(self.expected_value(self.agent_utilities[agent], context, intervention=intervention))
+        # one utility at a time, as they may lie in disconnected parts of the diagram
+        return sum(
+            self.expected_value([utility], context, intervention=intervention)[0]
+            for utility in self.agent_utilities[agent]
+        )
 
     def get_valid_order(self, nodes: Optional[Iterable[str]] = None) -> List[str]:
         """Get a topological order of the specified set of nodes (this may not be unique).
-- 
2.43.0


From b3a223a22bf84c472ee7d69ed9ecc5bfc5766476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 28/40] fix: games in which chance or given policies rule out
 some paths

---
 pycid/export/gambit.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index fc2f139..8d48766 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -41,6 +41,11 @@ def macid_to_efg(
     if agents_in_sg is None:
         agents_in_sg = macid.agents
 
+    # the rules of the decisions in the tree are up to the players
+    mixed_macid = macid.copy()
+    for dec in decisions_in_sg:
+        mixed_macid.impute_random_decision(dec)
+
     # choose only relevant nodes
     game_tree_nodes = set(
         list(decisions_in_sg) + [parent for dec in decisions_in_sg for parent in macid.get_parents(dec)]
@@ -57,6 +62,8 @@ def macid_to_efg(
     # nodes referenced in the game tree. Root has node_idx (0,), rest are (0, n, m, ...)
     # state is a dict of node_idx:state of partial instantiations of nodes
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]] = defaultdict(dict)
+    # chance rules out the paths to these node_idx, so nothing can be conditioned on them
+    impossible: Set[Tuple[int, ...]] = set()
     # get cardinality of each node
     num_children = [1] + [len(macid.model.domain[node]) for node in sorted_game_tree_nodes]
     range_num_children = [list(range(x)) for x in num_children]
@@ -91,24 +98,32 @@ def macid_to_efg(
                     parents_to_infoset[parents_actions_tuple] = cur_infoset
                 # add state info
                 for action_idx, action in enumerate(actions):
+                    if node_idx in impossible:
+                        impossible.add(node_idx + (action_idx,))
                     cur_infoset.actions[action_idx].label = str(action)
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: action})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
             else:
                 # otherwise is a chance node: condition on the whole path if not all its parents are on it
-                factor = macid.query([node], context=parents_actions if len(parents_actions) == len(parents) else path)
-                move = cur_node.append_move(game.players.chance, factor.cardinality)
-                # add state info
                 actions = macid.model.domain[node]
-                for action_idx, prob in enumerate(factor.values):
+                if node_idx in impossible:
+                    probs = [1 / len(actions)] * len(actions)  # arbitrary
+                else:
+                    context = parents_actions if len(parents_actions) == len(parents) else path
+                    probs = mixed_macid.query([node], context=context).values
+                move = cur_node.append_move(game.players.chance, len(actions))
+                # add state info
+                for action_idx, prob in enumerate(probs):
+                    if node_idx in impossible or prob == 0:
+                        impossible.add(node_idx + (action_idx,))
                     move.actions[action_idx].label = str(actions[action_idx])
                     move.actions[action_idx].prob = pygambit.Decimal(prob)
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: actions[action_idx]})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
 
-    game = _add_payoffs(macid, game, range_num_children, node_idx_to_state, agents_in_sg)
+    game = _add_payoffs(mixed_macid, game, range_num_children, node_idx_to_state, agents_in_sg, impossible)
 
     return game, parents_to_infoset
 
@@ -242,6 +257,7 @@ def _add_payoffs(
     range_num_children: List[List],
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]],
     agents_in_sg: Iterable[Hashable],
+    impossible: Set[Tuple[int, ...]],
 ) -> pygambit.Game:
     """add payoffs to the game as leave nodes"""
     for node_idx in itertools.product(*range_num_children):
@@ -250,7 +266,8 @@ def _add_payoffs(
         # name outcome as a string of the node_idx
         payoff_tuple = game.outcomes.add(str(node_idx))
         for i, agent in enumerate(agents_in_sg):
-            payoff = macid.expected_utility(context=context, agent=agent)
+            # the payoff of an impossible outcome is arbitrary
+            payoff = 0 if node_idx in impossible else macid.expected_utility(context=context, agent=agent)
             payoff_tuple[i] = pygambit.Decimal(payoff)
         cur_node.outcome = payoff_tuple
 
-- 
2.43.0


From b331f9b92078b1c9214b6b50bbedaa3bd44531a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 29/40] fix: expected utility when an own utility is observed

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 8f7aca2..3ef06d4 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -209,7 +209,7 @@ class MACIDBase(CausalBayesianNetwork):
         """
         # one utility at a time, as they may lie in disconnected parts of the diagram
         return sum(
-            self.expected_value([utility], context, intervention=intervention)[0]
+            context[utility] if utility in context else self.expected_value([utility], context, intervention)[0]
             for utility in self.agent_utilities[agent]
         )
 
-- 
2.43.0


From d0f4e485aa80c38bbcdd9b3deb6c6f3f07cd65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 30/40] fix: rules already found for irrelevant decisions no
 longer weaken subgame perfection

---
 pycid/core/macid.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index f5e7180..f27d7f3 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple
 import networkx as nx
 from pgmpy.factors.discrete import TabularCPD
 
-from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
+from pycid.core.cpd import StochasticFunctionCPD
 from pycid.core.macid_base import AgentLabel, MACIDBase
 from pycid.core.relevance_graph import CondensedRelevanceGraph
 from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver
@@ -54,7 +54,6 @@ class MACID(MACIDBase):
         2) Construct the subgame graph from a subgraph of the full MACID's graph (we keep edges that terminate
         in one of the active subgame decisions or nodes from (1)).
         3) Uniform randomly initialise decision nodes in the full MAID that aren't present in the subgame
-        (and also haven't already been initialised)
         4) For nodes that are parents of active subgame decision nodes or nodes from (1), marginalise out their
         parents in the original MAID to create valid CPDs for the subgame.
         5) Copy over CPDs for every other variable from the original MACID.
@@ -90,13 +89,11 @@ class MACID(MACIDBase):
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
 
-        # random initialise decisions not already instantiated that aren't active in this subgame.
+        # random initialise decisions that aren't active in this subgame, also those that already have a rule.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
         macid_copy = self.copy()
         for d in macid_copy.decisions:
-            if not macid_copy.is_s_reachable(active_subgame_decs, d) and isinstance(
-                macid_copy.get_cpds(d), DecisionDomain
-            ):
+            if not macid_copy.is_s_reachable(active_subgame_decs, d):
                 macid_copy.impute_random_decision(d)
 
         # for every node in the subgame that is a parent of a r_nodes_plus_decs node,
-- 
2.43.0


From b1c0f6ced6455abdb9b4b9153ad6a059db21082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:58 +0000
Subject: [PATCH 31/40] fix: removing several edges at once updates the
 distributions of their heads

---
 pycid/core/causal_bayesian_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index b7f6cfc..236b811 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -118,6 +118,12 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model:
             self.model.refresh(v)
 
+    def remove_edges_from(self, ebunch: Iterable[Tuple[str, str]]) -> None:
+        """removes the edges in ebunch that exist from the CBN"""
+        for u, v, *_ in list(ebunch):
+            if self.has_edge(u, v):
+                self.remove_edge(u, v)
+
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-- 
2.43.0


From dc8fae60922c2c50cf65922e6534bf7cc190fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 32/40] fix: after removing a node, its children have a
 relationship that agrees with their table

---
 pycid/core/causal_bayesian_network.py | 32 +++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 236b811..688ec73 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import collections
+import copy
 from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Set, Tuple, Union
 
 import matplotlib.pyplot as plt
@@ -80,6 +81,24 @@ class CausalBayesianNetwork(BayesianNetwork):
                 return  # needs to be replaced
             self[variable] = relationship
 
+        def drop_parent(self, variable: str) -> None:
+            """Update a variable one of whose parents has been removed, and marginalized out of its table"""
+            relationship, marginal = self[variable], self.cbn.get_cpds(variable)
+            try:
+                if isinstance(relationship, StochasticFunctionCPD):
+                    relationship = copy.copy(relationship)
+                    relationship.cbn = self.cbn
+                    relationship = relationship.copy()
+                else:
+                    self.to_tabular_cpd(variable, relationship)
+            except ParentsNotReadyException:
+                return
+            except Exception:  # the function needs the removed parent
+                if marginal is None:
+                    return
+                relationship = TabularCPD.copy(marginal)
+            self[variable] = relationship
+
         def sync_state_names(self) -> None:
             """Inform each CPD about the domains of other variables"""
             for cpd in self.cbn.get_cpds():
@@ -124,6 +143,15 @@ class CausalBayesianNetwork(BayesianNetwork):
             if self.has_edge(u, v):
                 self.remove_edge(u, v)
 
+    def remove_node(self, node: str) -> None:
+        """removes a node from the CBN, together with its distribution and links"""
+        children = self.get_children(node) if node in self else []
+        super().remove_node(node)
+        self.model.domain.pop(node, None)
+        for child in children:
+            if child in self.model:
+                self.model.drop_parent(child)
+
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
@@ -189,10 +217,10 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        disconnected_nodes = [node for node in nx.topological_sort(cbn) if node not in connected_nodes]
         if disconnected_nodes and cbn is self:
             cbn = self.copy()  # leave the queried model unchanged
-        for node in disconnected_nodes:
+        for node in reversed(disconnected_nodes):  # effects first, so that no distribution loses a parent
             cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
-- 
2.43.0


From e89696eb1f85ccdc5e9c77bb876efedbc5f7adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 33/40] fix: pure decision rules keep their meaning when the
 parents' distributions are replaced

---
 pycid/core/macid_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 3ef06d4..b9cfa45 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -296,6 +296,8 @@ class MACIDBase(CausalBayesianNetwork):
         domain = self.model.domain[decision]
         parents = self.get_parents(decision)
         parent_cardinalities = [self.get_cardinality(parent) for parent in parents]
+        # remember the contexts, so that the rules stay the same when the parents' distributions are changed
+        outcome_numbers = {parent: dict(self.get_cpds(parent).name_to_no[parent]) for parent in parents}
 
         # We begin by representing each possible decision rule as a tuple of outcomes, with
         # one element for each possible decision context
@@ -306,7 +308,7 @@ class MACIDBase(CausalBayesianNetwork):
             """Convert a decision context into an index for the function list"""
             idx = 0
             for i, parent in enumerate(parents):
-                name_to_no: Dict[Outcome, int] = self.get_cpds(parent).name_to_no[parent]
+                name_to_no: Dict[Outcome, int] = outcome_numbers[parent]
                 idx += name_to_no[pv[parent]] * int(np.prod(parent_cardinalities[:i]))
             assert 0 <= idx <= number_of_decision_contexts
             return idx
-- 
2.43.0


From 47f1d98455660d6ce56577704bdc858a62a613ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:40 +0000
Subject: [PATCH 34/40] fix: keep decisions without links to relevant nodes in
 the subgame

create_subgame built the subgame's nodes from its links only, so a decision
without parents that influences nothing its agent values was missing, and
get_ne, get_spe and get_ne_in_sg raised KeyError.
---
 pycid/core/macid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index f27d7f3..f3e2b58 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -88,6 +88,7 @@ class MACID(MACIDBase):
                 sg_agents_utils[agent] = [node]
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
+        sg_macid.add_nodes_from(r_nodes_plus_decs - set(sg_macid.nodes))  # decisions that influence nothing relevant
 
         # random initialise decisions that aren't active in this subgame, also those that already have a rule.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
-- 
2.43.0


From 5cd76b982c954ba63ed412f01518c88267914b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 35/40] fix: random diagrams with a single node contain that
 node

---
 pycid/random/random_cid.py       | 2 ++
 pycid/random/random_macid.py     | 1 +
 pycid/random/random_macidbase.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/pycid/random/random_cid.py b/pycid/random/random_cid.py
index 35fd38a..075e3b3 100644
--- a/pycid/random/random_cid.py
+++ b/pycid/random/random_cid.py
@@ -63,6 +63,7 @@ def random_cid(
     )
 
     dag = DAG(mb.edges)
+    dag.add_nodes_from(mb.nodes)
     decision_nodes = mb.decisions
     utility_nodes = mb.utilities
 
@@ -73,6 +74,7 @@ def random_cid(
     dag = nx.relabel_nodes(dag, node_name_change_map)
 
     cid = CID(dag.edges, decisions=list(dec_name_change.values()), utilities=list(util_name_change.values()))
+    cid.add_nodes_from(dag.nodes)
 
     if add_cpds:
         add_random_cpds(cid)
diff --git a/pycid/random/random_macid.py b/pycid/random/random_macid.py
index 92f8867..bbcd83c 100644
--- a/pycid/random/random_macid.py
+++ b/pycid/random/random_macid.py
@@ -63,6 +63,7 @@ def random_macid(
         max_resampling_attempts=max_resampling_attempts,
     )
     macid = MACID(mb.edges, agent_decisions=mb.agent_decisions, agent_utilities=mb.agent_utilities)
+    macid.add_nodes_from(mb.nodes)
 
     if add_cpds:
         add_random_cpds(macid)
diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index abece5e..04cda48 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -92,6 +92,7 @@ def random_macidbase(
 
             dag = nx.relabel_nodes(dag, node_name_change_map)
             mb = MACIDBase(dag.edges, agent_decisions=agent_decisions, agent_utilities=agent_utilities)
+            mb.add_nodes_from(dag.nodes)  # a single node has no edges
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
-- 
2.43.0


From 8e177d9db5a3988d74d9fadc4575dde6e515b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 36/40] fix: d-connection tests of (MA)CIDs work without
 observed nodes

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index b9cfa45..e9d6cfb 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -432,7 +432,7 @@ class MACIDBase(CausalBayesianNetwork):
     def active_trail_nodes(
         self, variables: Union[str, List[str], Tuple[str, ...]], observed: Optional[Iterable[str]] = None, **kwargs: Any
     ) -> Dict[str, Set[str]]:
-        return super().active_trail_nodes(variables, list(observed), **kwargs)  # type: ignore
+        return super().active_trail_nodes(variables, list(observed or []), **kwargs)  # type: ignore
 
     def copy_without_cpds(self) -> MACIDBase:
         """copy the MACIDBase object without its CPDs"""
-- 
2.43.0


From dd82c54032d63c197ed016c435ee01032136af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 37/40] fix: is_s_reachable accepts several nodes, as
 documented

---
 pycid/core/macid_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index e9d6cfb..dfb6596 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -240,7 +240,8 @@ class MACIDBase(CausalBayesianNetwork):
         D2′ to U given Pa(D)∪{D}, where a path is active in a MAID if it is active in the same graph, viewed as a BN.
 
         """
-        assert d2 in self.decisions
+        d2 = [d2] if isinstance(d2, str) else list(d2)
+        assert all(d in self.decisions for d in d2)
         return self.is_r_reachable(d1, d2)
 
     def is_r_reachable(self, decisions: Union[str, Iterable[str]], nodes: Union[str, Iterable[str]]) -> bool:
-- 
2.43.0


From d90f2dfed9d36e4354a99b90146ead0772702b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 38/40] fix: nodes and agents may be given as any iterable,
 also views and iterators

---
 pycid/core/causal_bayesian_network.py | 2 ++
 pycid/core/macid.py                   | 1 +
 pycid/core/macid_base.py              | 2 ++
 pycid/core/relevance_graph.py         | 1 +
 pycid/export/gambit.py                | 1 +
 5 files changed, 7 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 688ec73..a8c83dc 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -204,6 +204,8 @@ class CausalBayesianNetwork(BayesianNetwork):
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
+        query = list(query)  # any iterable, e.g. a view of the utilities
+
         # Apply the intervention (if any)
         if intervention:
             cbn = self.copy()
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index f3e2b58..963d84e 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -62,6 +62,7 @@ class MACID(MACIDBase):
         Returns:
         - the subgame (MACID) object
         """
+        active_subgame_decs = list(active_subgame_decs)  # may be an iterator
         # find the nodes that are r-relevant for the active_subgame_decs
         r_nodes = [node for node in self.nodes if self.is_r_reachable(active_subgame_decs, node)]
         # adds the dection nodes to this set
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index dfb6596..5826af7 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -169,6 +169,7 @@ class MACIDBase(CausalBayesianNetwork):
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
+        query = list(query)  # may be an iterator
 
         # Check that strategically relevant decisions have a policy specified
         mech_graph = MechanismGraph(self)
@@ -256,6 +257,7 @@ class MACIDBase(CausalBayesianNetwork):
             decisions = [decisions]
         if isinstance(nodes, str):
             nodes = [nodes]
+        decisions, nodes = list(decisions), list(nodes)  # these may be iterators
         mg = MechanismGraph(self)
         for decision in decisions:
             for node in nodes:
diff --git a/pycid/core/relevance_graph.py b/pycid/core/relevance_graph.py
index cf83a94..cd646b5 100644
--- a/pycid/core/relevance_graph.py
+++ b/pycid/core/relevance_graph.py
@@ -25,6 +25,7 @@ class RelevanceGraph(nx.DiGraph):
         super().__init__()
         if decisions is None:
             decisions = cid.decisions
+        decisions = list(decisions)
         self.add_nodes_from(decisions)
         dec_pair_perms = list(itertools.permutations(decisions, 2))
         for dec_pair in dec_pair_perms:
diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 8d48766..fa21230 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -40,6 +40,7 @@ def macid_to_efg(
         decisions_in_sg = macid.decisions
     if agents_in_sg is None:
         agents_in_sg = macid.agents
+    agents_in_sg = list(agents_in_sg)  # may be an iterator
 
     # the rules of the decisions in the tree are up to the players
     mixed_macid = macid.copy()
-- 
2.43.0


From c0de4356745852d4fc408203a4d3499cc397d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:57 +0000
Subject: [PATCH 39/40] fix: a removed node leaves no relationship behind if
 its parents had no distribution

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index a8c83dc..0b69370 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -147,6 +147,8 @@ class CausalBayesianNetwork(BayesianNetwork):
         """removes a node from the CBN, together with its distribution and links"""
         children = self.get_children(node) if node in self else []
         super().remove_node(node)
+        if node in self.model:  # a relationship without a table
+            del self.model[node]
         self.model.domain.pop(node, None)
         for child in children:
             if child in self.model:
-- 
2.43.0


From 5f2896d547382ff430435f0e371487810a1d8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:03 +0000
Subject: [PATCH 40/40] fix: removing a node whose children are linked to each
 other

---
 pycid/core/causal_bayesian_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 0b69370..1df87a3 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -150,8 +150,9 @@ class CausalBayesianNetwork(BayesianNetwork):
         if node in self.model:  # a relationship without a table
             del self.model[node]
         self.model.domain.pop(node, None)
-        for child in children:
-            if child in self.model:
+        # a new domain of one child must not reach functions of other children that need the removed node
+        for child in reversed(list(nx.topological_sort(self))):
+            if child in children and child in self.model:
                 self.model.drop_parent(child)
 
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
-- 
2.43.0

