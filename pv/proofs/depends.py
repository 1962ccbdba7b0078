"""Contracts that the argument of a property uses besides its own ones: the
callees' contracts.  A property is decided by its own contracts and these."""
LEX = 'parse_piece parsed_piece piece_length lemma_tokens'
URL = 'parse_url filter_useless unpack parse_query normalize'
VIEWS = 'mix multi_view mixed_view fuzzy_views view_equality ' \
    'rules_are_prefix_code'
DIGEST = 'fuzzy_digest fuzzy_digest_text parse_text pack'
TREE = 'build_tree add_child tree_children incr_count node_meta ' \
    'build_pieces build_nodes dump_tree'
MAKER = 'maker_load sub_maker_load maker_make sub_maker_make'

# property -> tasks by name, or all the own tasks of another property
USES = {
    'C01': [LEX, URL, VIEWS, DIGEST, TREE, MAKER, 'formats'],
    'C02': [LEX, URL, DIGEST, 'incr_count formats'],
    'C03': [LEX, URL, 'specify_rule length_cluster fuzzy_cluster '
            'multi_cluster view_bucket_cluster'],
    'C04': [LEX, URL, VIEWS, DIGEST, 'C09', 'round_trip parse_pattern_url',
            'build_tree add_child tree_children node_meta'],
    'C05': [LEX, URL, VIEWS, DIGEST, TREE, MAKER, 'C01', 'C09',
            'round_trip parse_pattern_url formats'],
    'C08': ['normalize'],
    'C11': ['sub_matcher_match node_match matcher_match get_matcher'],
    'C12': ['parsed_piece'],
    'C13': [LEX, URL, DIGEST, 'C04', 'C09', 'round_trip parse_pattern_url',
            'build_tree add_child tree_children node_meta',
            'pattern_order node_order'],
    'C14': [LEX, URL, DIGEST, TREE, 'formats'],
    'C15': ['node_meta build_nodes pack'],
    'C17': [LEX, VIEWS, TREE, DIGEST, 'C01'],
}


def names(prop, tasks):
    """The names of the tasks that decide the property, its own first."""
    out = [t.name for t in tasks if prop in t.props]
    for u in USES.get(prop, []):
        for w in u.split():
            for t in tasks:
                if t.name not in out and (t.name == w or w in t.props):
                    out.append(t.name)
    mods = set(f.split('.')[0] for t in tasks if t.name in out
               for f in t.functions)
    mods |= {'definition', 'compat'}
    return out + ['frame_' + m for m in sorted(mods) if any(
        t.name == 'frame_' + m for t in tasks)]
