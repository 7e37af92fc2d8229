import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
p("C01","Only valid intensity matrices are accepted",
"Assigning a conditional intensity matrix to a node succeeds exactly when each of its per-configuration matrices is square with the size of the node's domain, every diagonal entry is strictly negative, no off-diagonal entry is negative, and every row sums to zero within the fixed tolerance sqrt(f64::EPSILON); a matrix containing a NaN or infinite entry is never accepted. On success the node holds exactly that matrix, on rejection it holds no matrix, and in both cases its label, domain and learned statistics are unchanged.",
["inputs"],"every domain size, every number of parent configurations and every matrix, including NaN, infinite, zero and negative entries",
"tests try five hand-written 3x3 matrices; none has a NaN, a negative off-diagonal rate, a second configuration that is bad, or an error in the last row",
["src/params.rs"],[("validate_params","src/params.rs"),("set_cim","src/params.rs")],["set_cim / validate_params result","get_cim after the call"])
p("C02","Sampled next state is always a feasible transition",
"For a node with a valid intensity matrix whose row for that state and configuration has a positive rate, sampling the next state returns a state that lies in the domain, differs from the current state and has strictly positive intensity. The state returned is the one selected by inverse-CDF over the normalised off-diagonal intensities of that row (so each feasible state has probability proportional to its intensity); without a matrix an error is returned.",
["inputs","schedules"],"every valid matrix (including rows with zero-rate transitions), every state, every configuration and every value of the uniform draw",
"tests sample one 3-state matrix with no zero entries and check two frequencies within 1%; the zero-rate and the end-of-interval draws are never exercised",
["src/params.rs"],[("get_random_state","src/params.rs")],["state returned by get_random_state"])
p("C03","Residence times follow the exit rate of the current state",
"The residence time sampled for a node in a given state under a given parent configuration is non-negative and equals -ln(u)/q for one uniform draw u, where q is the exit rate (minus the diagonal entry) of exactly that state under exactly that configuration. Uniform initial states always lie in the domain, and without a matrix an error is returned instead of a time.",
["inputs","schedules"],"every valid matrix, state, configuration and draw",
"one test checks the mean over 10000 draws for one matrix, one state, one configuration",
["src/params.rs"],[("get_random_residence_time","src/params.rs"),("get_random_state_uniform","src/params.rs")],["value returned by get_random_residence_time"])
p("C04","Parent-configuration indexing is a bijection",
"The index computed for a node from a network state is the mixed-radix number of the parents' states (lowest-numbered parent least significant): it is smaller than the product of the parents' cardinalities, depends on the parents' states only, and two states get the same index only if all parents agree. Indexing through the network's own parent set and through an explicitly passed equal set agree, and decoding a joint-state index and re-encoding it over all variables gives back the index.",
["inputs","configurations"],"every network, cardinality vector, parent set and state",
"tests check five hand-computed indices on binary nodes, where swapped or wrong strides with unequal cardinalities cannot show",
["src/process/ctbn.rs"],[("get_param_index_network","src/process/ctbn.rs"),("get_param_index_from_custom_parent_set","src/process/ctbn.rs"),("idx_to_state","src/process/ctbn.rs")],["index returned","decoded state"])
p("C05","Graph edits are exact and have a frame",
"Adding an edge makes exactly that edge present, leaves every other edge and the nodes' order and cardinalities unchanged, and discards the parameters of the child node and of no other node; parent sets and children sets always describe the same edge relation. Adding a node returns the next index, appends the node without parameters, leaves the other nodes' parameters alone and leaves the network without an edge relation until it is initialised; initialising it yields no edges and touches no node.",
["histories","inputs"],"every sequence of node additions, edge additions and initialisations",
"tests add one or two edges and look at one set; they never look at what must not have changed",
["src/process/ctbn.rs","src/params.rs"],[("add_edge","src/process/ctbn.rs"),("add_node","src/process/ctbn.rs"),("initialize_adj_matrix","src/process/ctbn.rs"),("get_parent_set/get_children_set","src/process/ctbn.rs"),("reset_params","src/params.rs")],["parent sets, children sets, parameters after each operation"],
[dict(name="adjacency matrix",meaning="1 at (parent, child) when the edge is present",where="src/process/ctbn.rs CtbnNetwork")])
p("C06","Amalgamation yields the joint Markov generator",
"Amalgamating a network whose nodes all hold valid matrices gives a single process over the product of the domains whose rate from joint state s to s' is the owning node's conditional rate when s and s' differ in exactly one variable, zero when they differ in more than one, and the sum of all nodes' diagonal rates when s = s'. Joint states are numbered with the lowest-numbered variable least significant.",
["inputs","configurations"],"every network structure, cardinality vector and set of matrices",
"three fixed binary networks are compared with hand-made matrices",
["src/process/ctbn.rs"],[("amalgamation","src/process/ctbn.rs"),("idx_to_state","src/process/ctbn.rs")],["matrix of the returned process"])
p("C07","Trajectories and datasets are well formed",
"A trajectory can only be built when it has one state row per time stamp, and a dataset only when all its trajectories have the same number of variables; both keep exactly the data they were given. Generating n trajectories up to a positive end time gives exactly n trajectories; each starts at time 0, has non-decreasing times, ends exactly at the end time with a repetition of the last state, has only in-domain states, and any two other consecutive rows differ in exactly one variable.",
["inputs","schedules"],"every shape of arrays; every valid network, count, end time and seed",
"tests check the number of trajectories and the last time stamp of one run, and one bad shape each",
["src/tools.rs","src/sampling.rs"],[("Trajectory::new / Dataset::new","src/tools.rs"),("trajectory_generator","src/tools.rs")],["time and event arrays of the dataset"])
p("C08","Forward sampling follows the CTBN race semantics",
"A sampler's first sample after creation or reset is at time 0 in the given initial state (or a state drawn inside the domains); afterwards times never decrease and each sample differs from the previous one in exactly one variable. The variable that changes is the one with the earliest scheduled transition time, the time advances to exactly that moment, its new state is drawn from the row of its current state under its parents' current configuration, and only that variable and its children get their scheduled times discarded; every other scheduled time is kept.",
["schedules","histories","configurations"],"every valid network, every seed and every number of steps, with resets anywhere",
"a doc-test looks at the first sample only; learning tests check statistics of whole datasets, which tolerate wrong clock handling",
["src/sampling.rs"],[("ForwardSampler::next","src/sampling.rs"),("ForwardSampler::reset/new","src/sampling.rs")],["sequence of samples"],
[dict(name="next_transitions",meaning="scheduled transition time per variable, None = to be drawn",where="src/sampling.rs ForwardSampler")])
p("C09","Random graphs respect density bounds and exclude self-loops",
"A uniform graph generator can only be created with a density in [0,1]. Generating a graph replaces whatever edges the network had, never creates a self-loop, decides every ordered pair of distinct nodes by its own independent draw with the given density (so density 0 gives no edge and density 1 gives all of them), and leaves the node set alone.",
["inputs","schedules"],"every density, every network (including one that already has edges) and every seed",
"one test counts edges of one 101-node network within 5%; self-loops and prior edges are not looked at",
["src/tools.rs"],[("UniformGraphGenerator","src/tools.rs")],["edges of the network after generate_graph"])
p("C10","Random parameters are valid and lie in the interval",
"A uniform parameter generator can only be created with non-negative interval bounds. Generated matrices have one square block per configuration of the node's parents, non-negative off-diagonal rates, rows that sum to zero, and every exit rate inside the given interval; every node of the network gets one and the graph is unchanged.",
["inputs","schedules","configurations"],"every network with nodes of at least two states, every interval with 0 <= start < end and every seed",
"one 4-node network and one CTMP are validated with one seed; the interval and the number of blocks are not looked at",
["src/tools.rs"],[("UniformParametersGenerator","src/tools.rs")],["matrices of the network after generate_parameters"])
p("C11","Sufficient statistics count the dataset exactly",
"For a node and a candidate parent set, the transition count of (u, x, y) with x != y is exactly the number of consecutive row pairs over all trajectories in which the node goes from x to y while the parents' configuration in the earlier row has index u, and (u, x, x) is zero. The residence time of (u, x) is exactly the sum of the lengths of the intervals whose earlier row has the node in x and the parents in configuration u; the arrays have one entry per configuration and state and nothing else influences them.",
["inputs","histories"],"every dataset compatible with the network (any number of trajectories and of rows, including transitions of several variables in one row), node and parent set",
"learning tests compare learned rates with the true ones within a tolerance of 0.1, which hides miscounted events, and use contiguous parents",
["src/parameter_learning.rs"],[("sufficient_statistics","src/parameter_learning.rs")],["returned arrays"])
p("C12","Maximum-likelihood parameters are the empirical rates",
"Maximum-likelihood fitting sets each off-diagonal rate to transition count divided by residence time of that configuration and state (when the residence time is positive) and each diagonal entry to minus the sum of the rest of its row. It uses the parent set passed in, or the network's own when none is passed, returns a node with the same label and domain carrying the exact statistics, and does not modify the network or the dataset.",
["inputs","configurations"],"every network, dataset, node and optional parent set",
"four fixed networks with tolerance 0.1",
["src/parameter_learning.rs"],[("MLE::fit","src/parameter_learning.rs")],["returned parameters"])
p("C13","Bayesian parameters use the scaled pseudo-counts",
"Bayesian fitting sets each off-diagonal rate to (count + alpha/U) / (residence time + tau/U), where U is the number of parent configurations, and each diagonal entry to minus the sum of the rest of its row, so with alpha, tau > 0 and at least two states the result is, in exact arithmetic, a valid intensity matrix even for states never visited. It uses the parent set passed in, or the network's own when none is passed, and returns a node with the same label and domain carrying the raw statistics without pseudo-counts.",
["inputs","configurations"],"every network, dataset, node, optional parent set and every positive alpha and tau",
"the same four networks with alpha=1 and tau=1 and thousands of observations, where the prior is invisible at the tolerance used",
["src/parameter_learning.rs"],[("BayesianApproach::fit","src/parameter_learning.rs")],["returned parameters"])
p("C14","Scores are the documented functions of the statistics",
"The log-likelihood score of a node and parent set is exactly the sum over configurations and states of the gamma-function terms of the transition counts and residence times with pseudo-counts alpha/U and tau/U (U = number of parent configurations). The BIC score is that value minus ln(N)/2 times the number of free parameters U*k*(k-1), where N is the number of observed intervals over all trajectories and k the node's cardinality.",
["inputs","configurations"],"every dataset, node, parent set and positive alpha and tau",
"one hand-computed dataset per score and a few recovered structures",
["src/structure_learning/score_function.rs"],[("LogLikelihood::compute_score","src/structure_learning/score_function.rs"),("BIC::call","src/structure_learning/score_function.rs")],["returned score"])
p("C15","Hill climbing never returns a worse or oversized parent set",
"For every score function, hill climbing returns a network in which each node's parent set excludes the node itself, has at most the configured maximum number of parents, and scores at least as well as the empty parent set; if the last sweep met no ties, no single addition (within the maximum) or removal of a parent scores better. Previously present edges are discarded and a dataset with a different number of variables is rejected.",
["inputs","configurations"],"every network, dataset, deterministic score function with finite values, and maximum parent count (including 0 and none)",
"tests recover two fixed structures; the limit is tested at 1 with a score that wants more",
["src/structure_learning/score_based_algorithm.rs"],[("HillClimbing::fit_transform","src/structure_learning/score_based_algorithm.rs")],["edges of the returned network"])
p("C16","CTPC removes an edge only on evidence of independence",
"CTPC starts from the complete graph without self-loops and, for growing separating-set sizes, removes parent p of node c exactly when for some separating set of that size drawn from c's parents at the start of that round (without p) both hypothesis tests report independence; it stops for c when the size reaches the number of remaining parents. The result does not depend on the order in which parents or nodes are processed, contains no self-loop, discards previous edges, and a dataset with a different number of variables is rejected.",
["inputs","schedules"],"every network, dataset, parameter-learning method and pair of significance levels",
"tests recover three fixed structures from abundant data, where nearly any removal rule works",
["src/structure_learning/constraint_based_algorithm.rs"],[("CTPC::fit_transform","src/structure_learning/constraint_based_algorithm.rs")],["edges of the returned network"])
p("C17","Hypothesis tests compare matching configurations",
"A hypothesis test reports independence of child and parent given a separating set exactly when, for every joint configuration of separating set plus parent, the child's statistics there and under the same configuration without the parent pass the comparison. The F comparison passes exactly when every state's exit-rate ratio has its F distribution function value within [alpha/2, 1-alpha/2], and the chi-squared comparison exactly when for every state the statistic over the off-diagonal transitions has its distribution function value below 1-alpha; transitions never observed in either sample, and states never left in one of the two, carry no evidence.",
["inputs","configurations"],"every count tensor, every matrix, every cardinality vector, position of the parent among the separating set and significance level",
"tests make one call each on one network, with the parent index before the separating set",
["src/structure_learning/hypothesis_test.rs"],[("F::call / ChiSquare::call","src/structure_learning/hypothesis_test.rs"),("compare_matrices","src/structure_learning/hypothesis_test.rs")],["boolean returned"])
p("C18","The learning cache is transparent",
"For one network, dataset and child node, the parameters obtained through the cache for a parent set are always the ones the underlying learning method returns for that same parent set, whatever requests came before. No request order, repetition or change of parent-set size can make it return the parameters of another parent set.",
["histories"],"every sequence of requests (parent sets of any size in any order, with repetitions)",
"the cache is only exercised inside CTPC, in its order of increasing sizes",
["src/structure_learning/constraint_based_algorithm.rs"],[("Cache::fit","src/structure_learning/constraint_based_algorithm.rs")],["parameters returned by the cache"],
[dict(name="cache_persistent_small/big",meaning="parent set -> parameters for the two current sizes",where="src/structure_learning/constraint_based_algorithm.rs Cache")])
p("C19","Factored rewards are sums and single transitions",
"The instantaneous reward of a state is the sum over all variables of the reward assigned to that variable's value. Given a previous state that differs in one variable, the transition reward is the entry (previous value, current value) of that variable's table; it is zero when no previous state is given or the states are equal. A reward function initialised from a process has one all-zero table per node with that node's cardinality.",
["inputs","configurations"],"every process, reward tables and pair of states",
"tests cover one- and two-node networks of at most three states",
["src/reward/reward_function.rs"],[("FactoredRewardFunction::call","src/reward/reward_function.rs"),("initialize_from_network_process","src/reward/reward_function.rs")],["returned reward"])
p("C20","Monte Carlo reward is the mean discounted return",
"The value estimated for a state is the arithmetic mean, over the simulated runs used, of the run's return: each stay in a state up to the end time earns that state's instantaneous reward times the (discounted) length of the stay, and each transition before the end time earns its transition reward, discounted at its time. Every run starts in the given state, no more than the maximum number of runs is used, and evaluating the whole state space gives exactly one entry per joint state, equal to the single-state evaluation.",
["inputs","schedules"],"every process, reward function, horizon, discount factor, seed and iteration limit",
"tests use reward tables that are constant over states and compare means with tolerances of 0.01 to 0.1",
["src/reward/reward_evaluation.rs"],[("MonteCarloReward::evaluate_state","src/reward/reward_evaluation.rs"),("evaluate_state_space","src/reward/reward_evaluation.rs")],["returned value(s)"])
p("C21","Neighborhood relative reward is the max ratio to neighbours",
"The neighborhood relative reward of a joint state is the maximum of 1 and the ratios of its inner reward to the inner reward of each state that differs from it in at most one variable; states that differ in two or more variables never influence it. Exactly the states the inner evaluation reports are reported.",
["inputs"],"every inner evaluation (any table of non-zero rewards over a joint state space)",
"one doc example with one binary node, where every state is a neighbour of every other",
["src/reward/reward_evaluation.rs"],[("NeighborhoodRelativeReward::evaluate_state_space","src/reward/reward_evaluation.rs")],["returned map"])
p("C22","A Markov process holds exactly one node",
"A continuous-time Markov process accepts exactly one node, which it stores unchanged under index 0; a second node is refused with an error and leaves the first one in place. It reports zero nodes before and one after, node 0 has no parents and no children, and a process obtained by amalgamation can be simulated from any of its states.",
["histories","inputs"],"every sequence of node additions and queries, every valid matrix",
"tests add one and two nodes and query one index; no test simulates the process",
["src/process/ctmp.rs"],[("CtmpProcess","src/process/ctmp.rs")],["results of the operations; samples of the process"])
p("C23","Seeded runs are reproducible",
"Every generator and sampler that is given a seed initialises its random generator from that seed alone and draws from nothing else: two runs with the same seed, network and arguments produce identical graphs, parameters, samples, trajectories and reward estimates, also when evaluation is parallel. No operating-system entropy is consulted when a seed is given.",
["schedules","inputs"],"every seed, network and argument; every scheduling of the parallel parts",
"tests use fixed seeds but never compare two runs",
["src/tools.rs","src/sampling.rs","src/reward/reward_evaluation.rs"],[("seed_from_u64","src/tools.rs, src/sampling.rs")],["outputs of two runs with one seed"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
