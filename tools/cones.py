"""Per property: the functions whose contracts state or carry it (regular expressions over the function keys)."""
D = r'DiscreteStatesContinousTimeParams'
PAR = rf'({D}|Params)'
INDEX = [r'CtbnNetwork::get_param_index_network', r'CtbnNetwork::get_param_index_from_custom_parent_set', rf'{PAR}::(get_reserved_space_as_parent|state_to_index)']
NET = [r'CtbnNetwork::(get_node|get_node_mut|get_node_indices|get_number_of_nodes|get_parent_set|get_children_set|add_edge|add_node|initialize_adj_matrix|new)', rf'{PAR}::reset_params']
CTMP = [r'CtmpProcess::.*']
GETSET = [rf'{D}::(new|get_cim|set_cim_unchecked|get_transitions|set_transitions|get_residence_time|set_residence_time)']
NETQ = [r'CtbnNetwork::(get_node|get_node_indices|get_number_of_nodes|get_parent_set|get_children_set)']
RES = [rf'{PAR}::(get_reserved_space_as_parent)']
STATS = [r'sufficient_statistics', r'CtbnNetwork::get_param_index_from_custom_parent_set', rf'{PAR}::(state_to_index|get_reserved_space_as_parent)', r'Trajectory::(get_time|get_events)', r'Dataset::get_trajectories'] + NETQ
FITTED = [rf'{D}::(new|set_cim_unchecked|set_transitions|set_residence_time)']
CONES = {
 'C01': [rf'{PAR}::validate_params', rf'{D}::set_cim', rf'{D}::reset_params'] + GETSET,
 'C02': [rf'{PAR}::get_random_state'],
 'C03': [rf'{PAR}::get_random_residence_time', rf'{PAR}::get_random_state_uniform'],
 'C04': INDEX + NET + [r'CtbnNetwork::idx_to_state'],
 'C05': NET + [r'CtbnNetwork::get_adj_matrix'],
 'C22': CTMP,
 'C06': [r'CtbnNetwork::(amalgamation|idx_to_state)', r'CtmpProcess::(new|add_node)', rf'{D}::(new|set_cim_unchecked|get_cim)'] + INDEX + NETQ,
 'C08': [r'ForwardSampler::.*', rf'{PAR}::(get_random_state|get_random_residence_time|get_random_state_uniform)'] + INDEX + NETQ,
 'C07': [r'trajectory_generator', r'Trajectory::.*', r'Dataset::.*', r'ForwardSampler::.*', rf'{PAR}::(get_random_state|get_random_residence_time|get_random_state_uniform)'] + INDEX + NETQ,
 'C09': [r'UniformGraphGenerator::.*'] + NET,
 'C10': [r'UniformParametersGenerator::.*', rf'{D}::set_cim_unchecked', r'CtbnNetwork::(get_node_mut|initialize_adj_matrix)', r'CtmpProcess::(get_node_mut|get_parent_set)'] + NETQ + RES,
 'C20': [r'MonteCarloReward::.*', r'ForwardSampler::.*', rf'{PAR}::(get_random_state|get_random_residence_time|get_random_state_uniform)'] + INDEX + NETQ,
 'C11': STATS,
 'C12': [r'MLE::fit', rf'Params::get_label'] + STATS + FITTED,
 'C13': [r'BayesianApproach::fit', rf'Params::get_label'] + STATS + FITTED,
 'C18': [r'Cache::.*'],
 'C19': [r'FactoredRewardFunction::.*'] + NETQ + RES,
 'C14': [r'(LogLikelihood|BIC)::.*'] + STATS,
 'C15': [r'HillClimbing::.*', r'CtbnNetwork::(add_edge|initialize_adj_matrix)', rf'{PAR}::reset_params', r'Trajectory::get_events', r'Dataset::get_trajectories'] + NETQ,
 'C16': [r'CTPC::.*', r'(F|ChiSquare)::call', r'Cache::.*', r'CtbnNetwork::(add_edge|initialize_adj_matrix)', rf'{PAR}::reset_params', r'Trajectory::get_events', r'Dataset::get_trajectories'] + NETQ + RES,
 'C17': [r'(F|ChiSquare)::.*', r'Cache::.*', rf'{D}::(get_cim|get_transitions)'] + NETQ + RES,
 'C23': [r'ForwardSampler::.*', r'trajectory_generator', r'UniformGraphGenerator::.*', r'UniformParametersGenerator::.*', r'MonteCarloReward::.*', rf'{PAR}::(get_random_state|get_random_residence_time|get_random_state_uniform)', r'Trajectory::.*', r'Dataset::.*'] + INDEX + NETQ,
 'C21': [r'NeighborhoodRelativeReward::.*'],
}
BOUNDED = {}
COMMON = [
 'f64 is a real number, +inf, -inf or NaN: no rounding, no overflow to infinity, ln/sqrt/pow/gamma as uninterpreted functions with the stated axioms',
 'the contracts of the standard library, ndarray, rand, statrs, itertools and rayon in contracts/a_prelude.rs are correct (trusted, exercised by the oracle runs)',
 'the extraction (extract/) preserves the meaning of the code it translates; it drops logging, formatting of messages and visibility',
 'sizes fit the machine integers (stated as preconditions where they matter)',
]
ASSUMPTIONS = {}
# functions the source leaves unimplemented!(): their contract is `requires false`
UNCALLABLE = {'CtmpProcess::initialize_adj_matrix', 'CtmpProcess::add_edge', 'CtmpProcess::get_param_index_from_custom_parent_set', 'NeighborhoodRelativeReward::evaluate_state'}
