"""Source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


GP = "pycid/core/get_paths.py"
CBN = "pycid/core/causal_bayesian_network.py"
MB = "pycid/core/macid_base.py"
MA = "pycid/core/macid.py"
CIDF = "pycid/core/cid.py"
CPD = "pycid/core/cpd.py"
RG = "pycid/core/relevance_graph.py"
AN = "pycid/analyze/"

prop("P01", "Active-path search and path activity agree with d-separation",
     "For any diagram, any two nodes and any observed set not containing them, the active-path search returns a "
     "repetition-free path of the diagram between the two nodes that is active given the observed set whenever the "
     "nodes are d-connected, and reports that there is none whenever they are d-separated. "
     "The activity test of a given path answers yes exactly when every non-collider on it is unobserved and every "
     "collider on it is observed or has an observed descendant.",
     ["inputs", "configurations"],
     "all DAGs, all node pairs, all observed sets, all paths",
     "Tests look at a handful of fixed diagrams; the guarantee is over every DAG x pair x observed set.",
     [GP], [("depth-first search over active extensions", GP + " find_active_path/_active_neighbours"),
            ("per-path blocking rules", GP + " is_active_path/get_motif")],
     ["find_active_path", "is_active_path"])

prop("P02", "Path enumeration is exact and every path position is classified",
     "For any diagram and two nodes, enumerating directed paths yields exactly the directed paths between them and "
     "enumerating undirected paths yields exactly the repetition-free undirected paths, each once. Classifying a "
     "position of a path names the pattern of the two path edges meeting there (chain forward, chain backward, fork, "
     "collider, endpoint for the last; direction of the first edge for the first), and the edge list of a path gives "
     "every step in its true direction.",
     ["inputs", "configurations"], "all DAGs, all node pairs, all paths",
     "Tests compare path lists on a few small example diagrams.",
     [GP], [("generic DFS", GP + " _dfs_search_paths"), ("enumerations", GP + " find_all_dir_paths/find_all_undir_paths"),
            ("motifs", GP + " get_motif/get_motifs/_get_path_edges")],
     ["find_all_dir_paths", "find_all_undir_paths", "get_motif", "get_motifs"])

prop("P03", "Back-door, indirect front-door and decision-free path tests are exact",
     "For any diagram, distinct endpoints and observed set not containing them, the back-door test is true exactly when some active path "
     "starts with an edge into the start node, the indirect front-door test exactly when some active path starts "
     "with an edge out of the start node and contains a collider, and the decision-free test exactly when some "
     "directed path has no decision strictly between its endpoints.",
     ["inputs", "configurations"], "all DAGs, node pairs, observed sets and decision placements",
     "Tests probe a few diagrams; each answer quantifies over all paths of all diagrams.",
     [GP], [("trail tests", GP + " is_active_backdoor_trail/is_active_indirect_frontdoor_trail"),
            ("decision-free paths", GP + " directed_decision_free_path")],
     ["is_active_backdoor_trail", "is_active_indirect_frontdoor_trail", "directed_decision_free_path"])

prop("P04", "Strategic relevance, relevance graph and sufficient recall are exact",
     "In any multi-agent diagram a node is reported relevant to a decision exactly when a new parent attached to "
     "that node would be d-connected, given the decision and its parents, to a utility of the decision's owner that "
     "descends from the decision; for sets, when this holds for some pair. The relevance graph has exactly the edges "
     "between distinct decisions for which this holds, and an agent (or every agent, if none is named) has "
     "sufficient recall exactly when the relevance graph restricted to that agent's decisions is acyclic.",
     ["inputs", "configurations"], "all DAGs, agents, owner assignments, decisions and target nodes",
     "Tests check a few story diagrams; relevance depends on every observed-set/edge combination.",
     [MB, RG], [("mechanism parents and d-connection", MB + " is_r_reachable/is_s_reachable/MechanismGraph"),
                ("relevance graph", RG + " RelevanceGraph"), ("recall", MB + " sufficient_recall")],
     ["is_r_reachable", "is_s_reachable", "RelevanceGraph.edges", "sufficient_recall"])

prop("P05", "Subgames and component ordering follow from the relevance graph",
     "For any multi-agent diagram, the condensed relevance graph partitions the decisions into the strongly connected "
     "components of the relevance graph, and the reported component ordering lists each component once with every "
     "relevance edge between components going forward. "
     "The reported subgame decision sets are exactly the non-empty unions of components that are closed under "
     "relevance, each once, and a topological order of nodes lists exactly the requested nodes with every ancestor "
     "before its descendants.",
     ["inputs", "configurations"], "all DAGs, owner assignments and requested node sets",
     "Tests count subgames in a few diagrams; the claim is set equality over all relevance relations.",
     [RG, MA, MB], [("condensation", RG + " CondensedRelevanceGraph"), ("closed unions", MA + " decs_in_each_maid_subgame"),
                    ("topological order", MB + " get_valid_order")],
     ["decs_in_each_maid_subgame", "get_scc_topological_ordering", "get_sccs", "get_valid_order"])

prop("P06", "Requisite observations and the minimal reduction are exact",
     "For any diagram and decision, an observation is reported requisite exactly when it is d-connected to some "
     "utility of the decision's owner descending from the decision given the decision and its other observations. "
     "The requisite graph is the input with non-requisite information links removed until none is left: it differs only by removed links into decisions, every remaining "
     "observation is requisite in it, and the input diagram is left unchanged.",
     ["inputs", "configurations"], "all DAGs, decisions, utilities and observations",
     "Tests check a few trimmed graphs; minimality and exactness quantify over all diagrams.",
     [AN + "requisite_graph.py"], [("criterion", AN + "requisite_graph.py requisite"),
                                   ("reduction sweep", AN + "requisite_graph.py requisite_graph")],
     ["requisite", "requisite_list", "requisite_graph"])

prop("P07", "The graphical value-of-information answer matches its criterion",
     "In a single-agent diagram with sufficient recall, a node is reported to have value of information for a "
     "decision exactly when it is neither the decision nor a descendant of it and, once the node is made observable "
     "to the decision, that observation survives in the minimal reduction; the list form returns exactly the nodes "
     "for which the single form is true. Unknown nodes, several agents, or a lack of sufficient recall are refused "
     "with an error.",
     ["inputs", "configurations"], "all single-agent DAGs, decisions and nodes",
     "Tests probe some nodes in a few diagrams.",
     [AN + "value_of_information.py", AN + "requisite_graph.py"],
     [("criterion", AN + "value_of_information.py admits_voi/admits_voi_list")], ["admits_voi", "admits_voi_list"])

prop("P08", "Response and instrumental-control incentives match their criteria",
     "In a single-agent diagram with sufficient recall, a response incentive on a node is reported exactly when the "
     "node is not the decision and the minimal reduction has a directed path from it to the decision. In a "
     "single-agent diagram an instrumental control incentive is reported exactly when some directed path from the "
     "decision to a utility passes through the node. List forms return exactly the nodes for which the single form "
     "is true, and unknown nodes or several agents are refused with an error.",
     ["inputs", "configurations"], "all single-agent DAGs, decisions and nodes",
     "Tests probe some nodes in a few diagrams.",
     [AN + "response_incentive.py", AN + "instrumental_control_incentive.py"],
     [("RI", AN + "response_incentive.py admits_ri"), ("ICI", AN + "instrumental_control_incentive.py admits_ici")],
     ["admits_ri", "admits_ri_list", "admits_ici", "admits_ici_list"])

prop("P09", "Total, direct and indirect value-of-control answers match their criteria",
     "In a single-agent diagram with sufficient recall, value of control is reported for a node exactly when it is "
     "not a decision and is, or has a directed path in the minimal reduction to, a utility; direct value of control "
     "exactly when some such path avoids decisions; indirect value of control with respect to a decision exactly "
     "when, for some utility, such a path passes through the decision and the minimal reduction has a path between "
     "the node and that utility that starts with an edge into the node and is active given the decision and its "
     "original observations other than the node. List forms agree with single forms, and several agents, unknown nodes or a "
     "lack of sufficient recall are refused with an error.",
     ["inputs", "configurations"], "all single-agent DAGs, decisions and nodes",
     "Tests probe some nodes in a few diagrams.",
     [AN + "value_of_control.py"], [("criteria", AN + "value_of_control.py admits_voc/admits_dir_voc/admits_indir_voc")],
     ["admits_voc", "admits_dir_voc", "admits_indir_voc", "*_list"])

prop("P10", "Reasoning-pattern detection matches the Pfeffer-Gal criteria",
     "In any multi-agent diagram, direct effect, manipulation, signaling and revealing/denying are reported for a "
     "decision and a set of effective decisions exactly when that pattern's published graphical conditions hold for "
     "some other effective decision and some choice of utilities and paths. The combined report finds the largest "
     "set of decisions each of which is motivated relative to that set, and lists each of its decisions under one "
     "pattern that it satisfies and every other decision under none.",
     ["inputs", "configurations"], "all DAGs, two-agent owner assignments, decisions and effective sets",
     "Tests check some fixed diagrams; conditions quantify over paths, utilities and other decisions.",
     [AN + "reasoning_patterns.py"],
     [("pattern tests", AN + "reasoning_patterns.py direct_effect/manipulation/signaling/revealing_or_denying"),
      ("elimination loop", AN + "reasoning_patterns.py get_reasoning_patterns")],
     ["direct_effect", "manipulation", "signaling", "revealing_or_denying", "get_reasoning_patterns"])

prop("P11", "Node roles stay consistent under every history of role changes and copies",
     "After any sequence of turning nodes into decisions, utilities or chance nodes, or removing nodes, every node has exactly one role "
     "and at most one owner: the per-agent lists and the per-node owner maps describe the same assignment, a node "
     "appears in them at most once, and it has the role and owner given by its last change. Copying preserves nodes, "
     "edges, roles and owners of every agent, and later changes to the copy or to the original, or to the lists the "
     "diagram was built from, do not affect the other.",
     ["histories"], "all sequences of role changes, copies and agents",
     "Tests perform single role changes.",
     [MB, MA, CIDF], [("role changes", MB + " make_decision/make_utility/make_chance"),
                      ("copies", MB + ", " + MA + ", " + CIDF + " copy_without_cpds")],
     ["decisions", "utilities", "agents", "agent_decisions", "agent_utilities", "copy"])

prop("P12", "Queries that depend on an unspecified policy are refused, others answered",
     "In any diagram with decisions, a query is refused with an error exactly when some decision has no policy yet "
     "and its policy could affect the distribution of a queried node given the observed and intervened nodes, with "
     "links into intervened nodes cut; every other query about specified, mutually connected nodes goes through, and a context outcome "
     "outside the variable's domain is refused.",
     ["inputs", "configurations"], "all DAGs, query nodes, contexts, interventions and policy assignments",
     "Tests check two fixed queries.",
     [MB], [("mechanism d-connection gate", MB + " MACIDBase.query")], ["query raising ValueError or not"])

prop("P13", "Random generators respect every requested constraint",
     "Whatever the random choices, a generated DAG is connected and acyclic with the requested number of nodes, the "
     "edge count implied by the requested density and no in-degree above the requested maximum. A generated diagram "
     "has the requested number of nodes and of decisions and utilities per agent, utilities without children, every "
     "decision an ancestor of one of its owner's utilities, the in-degree bound, and sufficient recall when that was "
     "requested.",
     ["inputs", "configurations"], "all sequences of random choices and all parameters",
     "Tests draw a few samples from the default seeds.",
     ["pycid/random/random_dag.py", "pycid/random/random_macidbase.py", "pycid/random/random_cid.py",
      "pycid/random/random_macid.py"],
     [("edge sampling", "pycid/random/random_dag.py"), ("role assignment and recall repair", "pycid/random/random_macidbase.py")],
     ["random_dag", "random_cid", "random_macid"])

prop("P14", "Queries equal the truncated factorisation and leave the model unchanged",
     "For any parameterised causal Bayesian network, the normalised answer to a query under a context and an "
     "intervention equals the conditional distribution of the product of all node distributions in which each "
     "intervened node is fixed to its value, whenever the context has positive probability. "
     "Answering a query changes neither the nodes, the edges nor the distributions of the queried model.",
     ["inputs", "configurations"], "all small network shapes, all parameter values, queries, contexts, interventions",
     "Tests check single numbers of example models.",
     [CBN, MB], [("component pruning and exact inference", CBN + " query"), ("graph surgery", CBN + " intervene")],
     ["query"])

prop("P15", "Expected values, utilities and causal effects are the corresponding expectations",
     "For any parameterised model, the expected values returned for a list of mutually connected variables are their expectations given "
     "the context and intervention, one per requested variable in the requested order; an agent's expected utility "
     "is the sum of the expectations of exactly that agent's utility nodes. The total effect is the difference of "
     "expectations under the two interventions, and the introduced total effect is the effect on the decision minus "
     "the effect on the outcome, both sign-flipped when the outcome effect is negative and adaptation is on.",
     ["inputs", "configurations"], "all small network shapes, parameters, variable lists, contexts and interventions",
     "Tests check single numbers of example models.",
     [CBN, MB, AN + "effects.py"], [("expectation", CBN + " expected_value"), ("utility sum", MB + " expected_utility"),
                                     ("effects", AN + "effects.py")],
     ["expected_value", "expected_utility", "total_effect", "introduced_total_effect"])

prop("P16", "A function or dictionary relationship becomes exactly that distribution",
     "For any node, parent domains and stochastic function or dictionary, the table built for the node gives, for "
     "every combination of parent outcomes, the probability the function assigns to each outcome, with missing "
     "probability spread evenly over the unmentioned outcomes of the domain and a plain outcome meaning certainty. "
     "Distributions that do not sum to one (within one percent), leave [0,1], use outcomes outside a declared domain, or "
     "come from a function whose arguments are not the node's parents are refused.",
     ["inputs", "configurations"], "all probabilities, small domains and parent sets",
     "Tests evaluate a few fixed functions.",
     [CPD], [("table construction", CPD + " StochasticFunctionCPD.__init__"), ("constants and domains", CPD)],
     ["cpd.values", "cpd.domain", "ValueError"])

prop("P17", "Distributions and domains stay in step with the graph under edit histories",
     "After any sequence of adding or replacing node distributions (in any order, parents before or after children), "
     "adding or removing links, removing nodes, or intervening, every node whose parents are all specified has a table equal to its "
     "relationship evaluated on the current parents and their current domains, and the recorded domain of each node "
     "is that of its current distribution.",
     ["histories"], "all short edit histories over small networks, all parameter values",
     "Tests add relationships once in a convenient order.",
     [CBN, CPD], [("model dictionary synchronisation", CBN + " Model.__setitem__/__delitem__/add_edge/remove_edge")],
     ["get_cpds", "model.domain", "check_model"])

prop("P18", "Analyses and copies never change the caller's model",
     "Analysing, solving, querying, converting or copying a parameterised diagram leaves the caller's nodes, edges, "
     "roles, domains and distributions exactly as they were. A copy answers every query like the original, and "
     "changing the copy's distributions, edges or roles never changes the original's answers.",
     ["histories", "inputs"], "all analyses and copies over small diagrams, all parameter values",
     "Tests rarely look at the caller's model after an analysis.",
     [CBN, MB, MA, CIDF, AN + "value_of_control.py", AN + "value_of_information.py", "pycid/export/gambit.py"],
     [("copy before modify", "copy()/copy_without_cpds in every analysis")], ["model state before/after"])

prop("P19", "Optimal policies maximise expected utility",
     "For any parameterised single-agent diagram in which every decision context has positive probability, the "
     "policy found by solving or imputing an optimal policy achieves the largest expected utility of all policies, "
     "and imputing an optimal decision maximises expected utility given the current policies at the other "
     "decisions. The returned rules use only outcomes of the decision's declared domain and depend only on the "
     "decision's parents.",
     ["inputs", "configurations"], "all utilities/probabilities on small diagrams with one or two decisions",
     "Tests check a few diagrams with a known solution.",
     [MB, CIDF], [("backward induction", CIDF + " impute_optimal_policy"), ("arg max", MB + " impute_optimal_decision"),
                  ("brute force", MB + " optimal_pure_policies")],
     ["impute_optimal_policy", "solve", "impute_optimal_decision"])

prop("P20", "Pure rules are enumerated exactly once and all optimal pure policies are found",
     "For any decision, the enumeration of pure decision rules yields every function from parent outcomes to the "
     "decision's domain exactly once, and joint pure policies are all combinations. The reported optimal pure "
     "policies are exactly those whose expected utility is the maximum over all pure policies of the given "
     "decisions, up to the stated tolerance, and each is reported once.",
     ["inputs", "configurations"], "all small domains, parent sets and utilities",
     "Tests count rules in a few diagrams.",
     [MB, MA], [("product enumeration", MB + " pure_decision_rules/pure_policies"),
                ("maximum with ties", MB + " optimal_pure_policies")],
     ["pure_decision_rules", "joint_pure_policies", "optimal_pure_policies", "optimal_policies"])

prop("P21", "Quantitative value of information and control equal their definitions",
     "For any parameterised single-agent diagram with positive context probabilities, quantitative value of "
     "information equals the best achievable utility when the decision sees the node minus the best when it does "
     "not, and quantitative value of control equals the best when the node is chosen by the agent minus the best "
     "without. Both are never negative, and are zero when the graphical criterion says the node has no value.",
     ["inputs", "configurations"], "all parameter values on small diagrams",
     "Tests check single numbers of example models.",
     [AN + "value_of_information.py", AN + "value_of_control.py"],
     [("difference of optima", AN + "value_of_information.py quantitative_voi, value_of_control.py quantitative_voc")],
     ["quantitative_voi", "quantitative_voc"])

prop("P22", "The exported game tree is the extensive form of the diagram",
     "For any parameterised diagram, the exported game has one player per agent and, under every joint behaviour "
     "strategy, the same distribution over decisions and the same expected utility per agent as the diagram under "
     "the corresponding policies: chance probabilities are conditional on the path and payoffs are conditional "
     "expected utilities at the leaves. Two decision points share an information set exactly when they are the same "
     "decision with the same observed outcomes.",
     ["inputs", "configurations"], "all parameter values and strategies on small game shapes",
     "Tests check node counts and a few solved examples.",
     ["pycid/export/gambit.py"], [("tree construction", "pycid/export/gambit.py macid_to_efg"),
                                  ("payoffs", "pycid/export/gambit.py _add_payoffs")],
     ["macid_to_efg"])

prop("P23", "Equilibria returned are equilibria of the diagram",
     "For any parameterised multi-agent diagram, each profile returned by the equilibrium search assigns every "
     "decision the mixed rule that the game solver's equilibrium prescribes at the corresponding information sets, "
     "so no agent gains by deviating. Subgame-perfect search solves subgames so that every component is solved after "
     "the components it relies on, with the policies found there in force, and returns every combination.",
     ["inputs", "configurations"], "all parameter values and all solver answers meeting the solver's contract",
     "Tests check a few games with known equilibria.",
     [MA, "pycid/export/gambit.py"], [("conversion", "pycid/export/gambit.py behavior_to_cpd"),
                                     ("subgame construction", MA + " create_subgame/get_ne_in_sg"),
                                     ("backward induction", MA + " get_spe")],
     ["get_ne", "get_ne_in_sg", "get_spe"])

prop("P24", "Policy imputation helpers impute what they say",
     "For any parameterised diagram, imputing random decisions gives the uniform distribution over the declared "
     "domain in every context, imputing a conditional expectation gives in each possible context the expectation of "
     "the target given that context, and removing all decision rules returns every decision to its bare domain. The "
     "structural-model test is true exactly when every node with parents is a deterministic function of them.",
     ["inputs", "configurations"], "all parameter values on small diagrams",
     "Tests check single examples.",
     [MB, CIDF, CBN], [("imputation", MB + " impute_random_decision/impute_conditional_expectation_decision/remove_all_decision_rules"),
                       ("SCM test", CBN + " is_structural_causal_model")],
     ["impute_*", "remove_all_decision_rules", "is_structural_causal_model"])

prop("P25", "Random and helper distributions are proper, in-domain and reproducible",
     "For every seed and parent context, a random distribution assigns non-negative probabilities summing to one to "
     "exactly the requested domain, gives the same answer for the same seed and context whatever was drawn in "
     "between, and leaves the global random state as it found it. The Bernoulli, uniform and noisy-copy helpers "
     "describe the distributions they are named after.",
     ["inputs", "histories"], "all seeds, domains, contexts and probabilities",
     "Tests draw a few samples.",
     ["pycid/random/random_cpd.py", CPD], [("seeding", "pycid/random/random_cpd.py RandomCPD/temp_seed"),
                                           ("helpers", CPD + " bernoulli/discrete_uniform/noisy_copy")],
     ["RandomCPD", "bernoulli", "discrete_uniform", "noisy_copy"])

prop("P26", "Samples are draws from the model's joint distribution",
     "For every specified model, a sample assigns each node exactly one outcome of its domain, and each joint assignment is "
     "drawn with the product of the node distributions, decisions without a policy being uniform; so impossible assignments "
     "are never drawn. The same seed gives the same sample whatever was drawn before, no seed gives a fresh one, and sampling "
     "does not change the model.",
     ["inputs", "histories"], "all table entries, all generator results, all seeds",
     "Tests look at one sample.",
     ["pycid/core/causal_bayesian_network.py"], [("sample", "pycid/core/causal_bayesian_network.py CausalBayesianNetwork.sample")],
     ["CausalBayesianNetwork.sample"])

prop("P27", "A created subgame is the relevant part of the game",
     "For any game and non-empty set of its decisions, creating the subgame gives a diagram of exactly those decisions, the nodes relevant to "
     "them and the nodes with links into these, with exactly the links that end in such a decision or relevant node. The decisions and the "
     "relevant utilities keep their owners, other nodes are chance nodes. Relevant nodes keep their distributions, and every node keeps its "
     "outcomes. What an agent can expect of its utilities at each of the decisions, given what it observes and does there, is as in the whole "
     "game, whatever the rules of the decisions that are not relevant. The game itself is not changed.",
     ["inputs", "configurations"], "all sets of decisions, probabilities and rules in the listed games",
     "Tests look at the nodes of a few subgames.",
     [MA], [("subgame", MA + " create_subgame"), ("relevance", MB + " is_r_reachable")],
     ["create_subgame", "get_cpds", "expected_utility"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    print(json.dumps(p, ensure_ascii=False))
