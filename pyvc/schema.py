"""Shapes of the repository's objects as the verifier stores them.

Each family is a list of like objects owned by exactly one attribute (ownership is enforced by the engine:
an object is published into its slot and afterwards only reachable through the slot)."""

FAMS = {
    'Site': {'id': 'nint', 'g_id': 'int', 'connecting_bond_ids': 'ilist', 'index': ('idx', 'Index'),
             'relative_index': ('idx', 'RelativeIndex'), 'first_nn_count': 'int', 'second_directional_nn_count': 'int',
             'classname': ('const', 'Site')},
    'Bond': {'id': 'nint', 'g_id': 'int', 'row': 'int', 'col': 'int', 'type': 'int', 'connected_site_ids': 'ilist',
             'classname': ('const', 'Bond')},
    'OneCluster': {'site_ids': 'ilist', 'bond_ids': 'ilist', 'gid': 'int', 'id': 'int'},
    'Process': {'target_args_len': 'int'},
}
OWNERS = {('Lattice', 'site_matrix'): 'Site', ('Lattice', 'bond_matrix'): 'Bond', ('ClusterPool', 'cluster_list'): 'OneCluster'}
LOCAL_FAMS = ()

PERC_ATTRS = {
    'pc_bond_count_wrapping_cluster': 'optint', 'pc_site_count_wrapping_cluster': 'optint',
    'site_ids_indices': 'list:int', 'reverse_ids_indices': 'list:int',
    'current_idx': 'int', 'occupied_site_count': 'int', 'pc_occupied_site_count': 'int',
    'current_site': 'optsite', 'selected_id': 'optint',
    'cluster_count': 'int', 'largest_cluster_sz': 'int', 'largest_cluster_id': 'int',
    'max_entropy': 'real', 'entropy_value': 'real', 'after_wrapping': 'bool', 'wrapping_cluster_id': 'int',
    'first_run': 'bool', 'occupation_prob_list': 'list:real', 'entropy_list': 'list:real',
    'order_wrapping_list': 'list:real', 'order_largest_list': 'list:real',
    'max_iteration_limit': 'int', 'mode_custome_site_id': 'bool', 'do_shuffle': 'bool',
    'signature': 'str', 'selection_flag': 'optenum',
}
SUB_ATTRS = {
    'SitePercolationL1': {'x_occupied': 'int', 'site_id_sequence_record': 'list:int'},
    'SitePercolationL2': {'x_occupied': 'int', 'y_occupied': 'int'},
    'ShortestPathAfter_pc': {'shortest_path_p': 'real'},
    'SitePercolationL0': {},
    'SitePercolation': {},
}


def attr_type(ci, name):
    for c in ci.mro():
        t = SUB_ATTRS.get(c.name, {}).get(name)
        if t:
            return t
    if any(c.name == 'Percolation' for c in ci.mro()):
        return PERC_ATTRS.get(name)
    return None
